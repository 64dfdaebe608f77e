#!/usr/bin/env python3
"""Driver: one property check.

  vf.py check PROP        verify every proof listed for PROP, write evidence,
                          print VIOLATION lines, exit 0 / 1 (2 = check error)
  vf.py proof REGEX       run the proofs whose name matches and print failing obligations
  vf.py replay JSON       re-run a recorded counterexample against the real code
  vf.py setup             sanity-check the tools

A proof is declared in a contract file under /verif/contracts by a comment

  /* @proof NAME props=C01,C02 harness=FN enforce=f,g replace=h unwind=9
            unwindset=f.0:3 bounded=... tier=quick|thorough defs=A,B=1
            cflags=... timeout=... solver=... checks=... nodfcc */

The contract file #includes the real /repo source file.  Every run:
  mingw -E  ->  llp64.py  ->  goto-cc  ->  goto-instrument --dfcc  ->  cbmc
"""
import signal, sys, os, re, json, subprocess, tempfile, shutil, time, hashlib, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
CC = '/usr/bin/x86_64-w64-mingw32-gcc'
CONTRACTS = os.path.join(VERIF, 'contracts')
CPP = ['-IH_PLACEHOLDER']
DEFAULT_CHECKS = ['--no-standard-checks', '--bounds-check', '--pointer-check', '--div-by-zero-check']
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

sys.path.insert(0, os.path.join(VERIF, 'tools'))
import llp64

class CheckError(Exception):
    pass

CHILDREN = set()

def on_term(sig, frame):
    for pid in list(CHILDREN):
        try:
            os.killpg(pid, 9)
        except OSError:
            pass
    os._exit(3)

signal.signal(signal.SIGTERM, on_term)
signal.signal(signal.SIGINT, on_term)

def run(cmd, cwd=None, timeout=None, env=None):
    """run a command; on timeout kill it and its children"""
    t = time.time()
    if cmd[0] == 'cbmc':                # no swap here: a runaway solver must not take the machine down
        cmd = ['prlimit', '--as=%d' % (12 << 30)] + cmd
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=env, start_new_session=True)
    CHILDREN.add(p.pid)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, err = p.communicate()
        rc = 'timeout'
    finally:
        CHILDREN.discard(p.pid)
    return rc, out.decode(errors='replace'), err.decode(errors='replace'), time.time() - t

# ----------------------------------------------------------------- proofs
PROOF_RE = re.compile(r'/\*\s*@proof\s+(.*?)\*/', re.S)

def parse_proofs(path):
    txt = open(path).read()
    res = []
    for m in PROOF_RE.finditer(txt):
        words = m.group(1).split()
        d = {'name': words[0], 'file': path, 'line': txt[:m.start()].count('\n') + 1}
        for w in words[1:]:
            if '=' in w:
                k, v = w.split('=', 1)
                d[k] = v
            else:
                d[w] = True
        res.append(d)
    return res

def all_proofs():
    r = []
    for f in sorted(glob.glob(os.path.join(CONTRACTS, '*.c'))):
        r += parse_proofs(f)
    return r

def lst(p, k):
    return [x for x in str(p.get(k, '')).split(',') if x]

def cpp_flags(p, mode):
    fl = ['-I' + CONTRACTS, '-I' + os.path.join(REPO, 'H'), '-I' + REPO, '-D__NT__', '-DNDEBUG', '-w', '-D' + mode,
          '-DVF_PROOF_' + p['name']]
    fl += ['-D' + d for d in lst(p, 'defs')]
    if p.get('prelude'):
        fl += ['-funsigned-char', '-include', '/opt/vp/compat/dbgcv_prelude.h']
    return fl

def build_goto(p, wd):
    ipath = os.path.join(wd, 'h.i')
    rc, out, err, _ = run([CC, '-E'] + cpp_flags(p, 'VF_CBMC') + ['-o', ipath, p['file']], timeout=60)
    if rc != 0:
        raise CheckError('preprocessing failed: ' + err[-2000:])
    src = open(ipath, errors='surrogateescape').read()
    src = llp64.translate(src)
    tpath = os.path.join(wd, 't.i')
    open(tpath, 'w', errors='surrogateescape').write(src)
    gb = os.path.join(wd, 'a.gb')
    harness = p.get('harness', 'harness')
    more = []
    for k, extra in enumerate(lst(p, 'link')):
        xi = os.path.join(wd, 'x%d.i' % k)
        rc, out, err, _ = run([CC, '-E'] + cpp_flags(p, 'VF_CBMC') + ['-o', xi, os.path.join(REPO, extra)], timeout=60)
        if rc != 0:
            raise CheckError('preprocessing failed: ' + err[-2000:])
        xt = os.path.join(wd, 'x%d.t.i' % k)
        open(xt, 'w', errors='surrogateescape').write(llp64.translate(open(xi, errors='surrogateescape').read()))
        more.append(xt)
    cmd = ['goto-cc', '-fshort-wchar', '--function', harness, tpath] + more + ['-o', gb]
    if p.get('prelude'):
        cmd.insert(1, '-funsigned-char')
    rc, out, err, _ = run(cmd, cwd=wd, timeout=120)
    if rc != 0:
        raise CheckError('goto-cc failed: ' + (out + err)[-2000:])
    gb2 = os.path.join(wd, 'b.gb')
    for c in lst(p, 'calls'):           # calls=f:g  calls of f become calls of g, the executable contract of f
        gbx = os.path.join(wd, 'c.gb')
        rc, out, err, _ = run(['goto-instrument', '--replace-calls', c, gb, gbx], cwd=wd, timeout=300)
        if rc != 0:
            raise CheckError('goto-instrument --replace-calls failed: ' + (out + err)[-2000:])
        os.replace(gbx, gb)
    if p.get('nodfcc'):
        gb1 = os.path.join(wd, 'd.gb')
        rc, out, err, _ = run(['goto-instrument', '--drop-unused-functions', '--add-library', gb, gb1], cwd=wd, timeout=300)
        if rc != 0:
            raise CheckError('goto-instrument failed: ' + (out + err)[-2000:])
        gb = gb1
        rc, out, err, _ = run(['goto-instrument',
                               '--generate-function-body', '(?!__CPROVER)(?!nondet).*',
                               '--generate-function-body-options', 'assert-false-assume-false',
                               gb, gb2], cwd=wd, timeout=300)
        if rc != 0:
            raise CheckError('goto-instrument failed: ' + (out + err)[-2000:])
    else:
        gb1 = os.path.join(wd, 'd.gb')
        rc, out, err, _ = run(['goto-instrument', '--drop-unused-functions', gb, gb1], cwd=wd, timeout=300)
        if rc != 0:
            raise CheckError('goto-instrument failed: ' + (out + err)[-2000:])
        if lst(p, 'pre'):
            # extra goto-instrument passes before dfcc
            for opt in lst(p, 'pre'):
                gbx = gb1 + 'x'
                rc, out, err, _ = run(['goto-instrument'] + opt.split('@') + [gb1, gbx], cwd=wd, timeout=300)
                if rc != 0:
                    raise CheckError('goto-instrument failed: ' + (out + err)[-2000:])
                os.replace(gbx, gb1)
        cmd = ['goto-instrument', '--dfcc', harness]
        for f in lst(p, 'enforce'):
            cmd += ['--enforce-contract', f]
        for f in lst(p, 'replace'):
            cmd += ['--replace-call-with-contract', f]
        if p.get('loops'):
            # loop invariants live in CONTRACTS/<file>.json; the source is not annotated
            cmd += ['--apply-loop-contracts', '--loop-contracts-file', os.path.join(CONTRACTS, p['loops'])]
        for f in lst(p, 'static'):
            cmd += ['--nondet-static-exclude', f]
        rc, out, err, _ = run(cmd + [gb1, gb2], cwd=wd, timeout=600)
        if rc != 0:
            raise CheckError('goto-instrument --dfcc failed: ' + (out + err)[-2000:])
    return gb2

def cbmc_cmd(p, gb, extra=(), solver=None):
    cmd = ['cbmc', gb, '--object-bits', p.get('objbits', '10')] + (['--no-standard-checks'] if p.get('lite') else DEFAULT_CHECKS)
    if p.get('checks'):
        cmd += ['--' + c for c in lst(p, 'checks')]
    cmd += ['--unwinding-assertions', '--unwind', p.get('unwind', '2')]
    if p.get('unwindset'):
        us = lst(p, 'unwindset')        # the function under an enforced contract has another name in the goto program
        us += [re.sub(r'^(\w+)\.', r'\1_wrapped_for_contract_checking.', u) for u in us if u.split('.')[0] in lst(p, 'enforce')]
        cmd += ['--unwindset', ','.join(us)]
    if solver == 'cvc5':
        cmd += ['--cvc5']
    elif solver == 'z3':
        cmd += ['--z3']
    elif solver == 'cadical':
        cmd += ['--sat-solver', 'cadical']
    if p.get('slice'):
        cmd += ['--slice-formula']
    return cmd + list(extra)

def parse_json(out):
    try:
        d = json.loads(out)
    except ValueError:
        return None, [], None
    res, msgs, status = None, [], None
    for e in d:
        if 'result' in e:
            res = e['result']
        elif 'messageText' in e:
            msgs.append(e['messageText'])
        elif 'cProverStatus' in e:
            status = e['cProverStatus']
    return res, msgs, status

def parse_text(out):
    """obligation list of cbmc's plain output (asking for JSON would also build traces)"""
    i = out.find('** Results:')
    if i < 0:
        return None
    res = []
    f = fn = ''
    for l in out[i:].split('\n'):
        m = re.match(r'^\[(\S+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR|NOT_REACHABLE|UNDETERMINED|NOT_CHECKED)$', l)
        if m:
            res.append({'property': m.group(1), 'description': m.group(3), 'status': m.group(4),
                        'sourceLocation': {'file': f, 'function': fn, 'line': m.group(2) or ''}})
            continue
        m = re.match(r'^(.*)function (\S+)$', l)
        if m:
            f, fn = m.group(1).strip(), m.group(2)
    return res

def contract_text(p, r):
    """source text of the contract clause an obligation belongs to"""
    loc = r.get('sourceLocation') or {}
    f = loc.get('file', '')
    line = int(loc.get('line', 0) or 0)
    if not os.path.isabs(f):
        f = os.path.join(CONTRACTS, f)
    try:
        L = open(f, errors='replace').read().split('\n')
        return L[line - 1].strip() if 0 < line <= len(L) else ''
    except OSError:
        return ''

def classify(r):
    d = r['description']
    if d.startswith('VF_REACH:'):
        return 'reach'
    if 'unwinding assertion' in d or '.unwind.' in r['property'] or 'recursion unwinding' in d:
        return 'unwind'
    if 'undefined function should be unreachable' in d or d.startswith('no body for function') \
       or 'assertion false' == d or re.match(r'undefined function', d):
        return 'unmodelled'
    return 'oblig'

def flatten(val, off, acc):
    """expand a JSON trace value into (offset, bytes)"""
    if 'elements' in val:
        o = off
        for el in val['elements']:
            o += flatten(el['value'], o, acc)
        return o - off
    b = val.get('binary')
    if b is None:
        return 0
    n = (len(b) + 7) // 8
    x = int(b, 2)
    acc.append((off, x.to_bytes(n, 'little')))
    return n

def trace_inputs(trace):
    """last assignment of every global whose name starts with in_"""
    vals = {}
    for s in trace:
        if s.get('stepType') != 'assignment' or s.get('assignmentType') == 'actual-parameter':
            continue
        lhs = s.get('lhs', '')
        m = re.match(r'^(in_\w+)((?:\[\d+l*\])?)$', lhs)
        if not m or s.get('hidden'):
            continue
        name, ix = m.group(1), m.group(2)
        v = s.get('value', {})
        if ix:
            b = v.get('binary')
            if b is None:
                continue
            w = (len(b) + 7) // 8
            k = int(re.sub(r'\D', '', ix))
            vals.setdefault(name, {})[k * w] = int(b, 2).to_bytes(w, 'little')
        else:
            acc = []
            flatten(v, 0, acc)
            if acc:
                d = vals.setdefault(name, {})
                for o, bb in acc:
                    d[o] = bb
    return vals

def write_data_h(vals, path):
    with open(path, 'w') as f:
        f.write('/* inputs of the counterexample */\n')
        ents = []
        for name in sorted(vals):
            for o in sorted(vals[name]):
                bb = vals[name][o]
                ents.append('  { "%s", %d, %d, (const unsigned char *)"%s" },' %
                            (name, o, len(bb), ''.join('\\x%02x' % c for c in bb)))
        f.write('static const struct vf_ent vf_ents[] = {\n' + '\n'.join(ents) + '\n  { 0, 0, 0, 0 } };\n')

def wine_env(wd):
    """a private wine prefix: registry copied, system files shared read-only by symlink"""
    pre = os.path.join(wd, 'wine')
    if not os.path.isdir(pre):
        src = '/opt/vp/wine'
        os.makedirs(os.path.join(pre, 'dosdevices'))
        for f in ('system.reg', 'user.reg', 'userdef.reg', '.update-timestamp'):
            if os.path.exists(os.path.join(src, f)):
                shutil.copy(os.path.join(src, f), pre)
        os.makedirs(os.path.join(pre, 'drive_c'))
        for f in os.listdir(os.path.join(src, 'drive_c')):
            s, d = os.path.join(src, 'drive_c', f), os.path.join(pre, 'drive_c', f)
            if f == 'windows':
                os.symlink(s, d)
            elif os.path.isdir(s):
                os.makedirs(d)
        os.symlink('../drive_c', os.path.join(pre, 'dosdevices', 'c:'))
        os.symlink('/', os.path.join(pre, 'dosdevices', 'z:'))
    env = dict(os.environ)
    env.update(HOME=wd, WINEPREFIX=pre, WINEDEBUG='-all', WINEARCH='win64',
               WINEDLLOVERRIDES='mscoree,mshtml,winemenubuilder.exe,winedbg.exe=d')
    for k in ('DISPLAY', 'ASM', 'UASM', 'JWASM', 'INCLUDE'):
        env.pop(k, None)
    return env

def build_replay(p, vals, wd):
    """compile the real code + harness for its real target with the counterexample"""
    write_data_h(vals, os.path.join(wd, 'vf_data.h'))
    o1 = os.path.join(wd, 'h.o')
    rc, out, err, _ = run([CC, '-O1', '-fcommon', '-fno-strict-aliasing', '-fwrapv'] + cpp_flags(p, 'VF_REPLAY') +
                          ['-c', p['file'], '-o', o1], timeout=120)
    if rc != 0:
        return None, 'replay compile failed: ' + err[-1500:]
    objs = [o1]
    for k, extra in enumerate(lst(p, 'link')):
        xo = os.path.join(wd, 'l%d.o' % k)
        rc, out, err, _ = run([CC, '-O1', '-fcommon', '-fno-strict-aliasing', '-fwrapv'] + cpp_flags(p, 'VF_REPLAY') +
                              ['-c', os.path.join(REPO, extra), '-o', xo], timeout=120)
        if rc != 0:
            return None, 'replay compile failed: ' + err[-1500:]
        objs.append(xo)
    o2 = os.path.join(wd, 'm.o')
    rc, out, err, _ = run([CC, '-O1', '-w', '-I' + wd, '-DVF_HARNESS=' + p.get('harness', 'harness'), '-c',
                           os.path.join(VERIF, 'tools', 'replay_main.c'), '-o', o2], timeout=120)
    if rc != 0:
        return None, 'replay compile failed: ' + err[-1500:]
    exe = os.path.join(wd, 'replay.exe')
    rc, out, err, _ = run([CC, '-Wl,--stack,16777216'] + objs + [o2, '-o', exe], timeout=120)
    if rc != 0:
        und = sorted(set(re.findall(r"undefined reference to `([^']+)'", err)))
        if not und:
            return None, 'replay link failed: ' + err[-1500:]
        rc, out, err2, _ = run(['x86_64-w64-mingw32-objdump', '-t'] + objs, timeout=60)
        funcs = set()
        for l in out.split('\n'):
            m = re.search(r'\(sec\s+0\).*\(ty\s+(\w+)\).*\s(\S+)$', l)
            if m and m.group(1) == '20':
                funcs.add(m.group(2))
        s = os.path.join(wd, 'u.s')
        with open(s, 'w') as f:
            f.write('.text\n')
            for u in und:
                if u in funcs:
                    f.write('.globl %s\n%s:\n  subq $40,%%rsp\n  call vf_undef_reached\n' % (u, u))
            f.write('.bss\n')
            for u in und:
                if u not in funcs:
                    f.write('.globl %s\n.align 16\n%s: .skip 65536\n' % (u, u))
        rc, out, err, _ = run([CC, '-Wl,--stack,16777216'] + objs + [o2, s, '-o', exe], timeout=120)
        if rc != 0:
            return None, 'replay link failed: ' + err[-1500:]
    return exe, ''

def replay(p, vals, wd):
    exe, why = build_replay(p, vals, wd)
    if not exe:
        return 'no', why
    env = wine_env(wd)
    rc, out, err, t = run(['wine', exe], cwd=wd, timeout=60, env=env)
    run(['wineserver', '-k'], cwd=wd, timeout=20, env=env)
    txt = out + err
    if 'REPLAY-UNMODELLED' in txt:
        return 'no', txt[-3000:] + '\n(an unmodelled function was reached)'
    if 'REPLAY-ASSUME-FALSE' in txt:
        return 'no', txt[-3000:]
    if rc == 'timeout':
        return 'yes', txt[-3000:] + '\nthe real code did not terminate within 60 s on this input'
    if 'REPLAY-RESULT held' in txt:
        return 'no', txt[-3000:]
    if 'REPLAY-FAIL' in txt:
        return 'yes', txt[-3000:]
    if rc not in (0, 1):
        return 'yes', txt[-3000:] + '\nthe real code crashed on this input, exit code %s' % rc
    return 'no', txt[-3000:]

def run_proof(p, keep=None):
    """returns dict with obligations etc."""
    wd = tempfile.mkdtemp(prefix='vf.')
    res = {'proof': p['name'], 'status': 'error', 'obligations': 0, 'discharged': 0, 'reach': 0,
           'failures': [], 'solver_s': 0.0, 'error': None}
    t0 = time.time()
    try:
        gb = build_goto(p, wd)
        solvers = lst(p, 'solver') or [None]
        cmd = cbmc_cmd(p, gb, solver=solvers[0])
        res['cmd'] = ' '.join(['goto-instrument --dfcc'] if not p.get('nodfcc') else ['goto-instrument']) + \
            ' ... | ' + ' '.join(c if c != gb else 'h.gb' for c in cmd)
        tmo = int(os.environ.get('VF_TIMEOUT') or p.get('timeout', '600'))
        t_all = 0
        for sv in solvers:                      # portfolio: next back end if one gives no answer
            rc, out, err, t = run(cbmc_cmd(p, gb, solver=sv), cwd=wd, timeout=tmo)
            t_all += t
            res['solver_s'] = round(t_all, 2)
            res['back_end'] = {'cvc5': 'cvc5 1.1.2', 'z3': 'z3 4.8.12', 'cadical': 'CaDiCaL (in cbmc)'}.get(sv, 'MiniSat 2.2 (in cbmc)')
            r = parse_text(out) if rc != 'timeout' else None
            if r is not None and 'VERIFICATION ERROR' not in out:
                break
        if rc == 'timeout':
            raise CheckError('cbmc timed out after %d s' % tmo)
        if r is None or 'VERIFICATION ERROR' in out:
            raise CheckError('cbmc gave no result (rc=%s): %s %s' % (rc, out[-500:], err[-500:]))
        obl = [x for x in r if classify(x) in ('oblig', 'unwind', 'unmodelled')]
        reach = [x for x in r if classify(x) == 'reach']
        named = [x for x in obl if x['description'].startswith('VF:') or '.postcondition.' in x['property']
                 or '.assigns.' in x['property']]
        res['obligations'] = len(obl)
        res['named_obligations'] = len(named)
        res['discharged'] = sum(1 for x in obl if x['status'] == 'SUCCESS')
        res['reach'] = len(reach)
        if not named:
            raise CheckError('vacuous: the proof generated no named obligation')
        if not reach:
            raise CheckError('vacuous: no reachability guard in the proof')
        bad_reach = [x['description'] for x in reach if x['status'] != 'FAILURE']
        fails = [x for x in obl if x['status'] != 'SUCCESS']
        unk = [x for x in fails if x['status'] not in ('FAILURE',)]
        hard = [x for x in fails if x['status'] == 'FAILURE']
        hard_obl = [x for x in hard if classify(x) == 'oblig']
        hard_unw = [x for x in hard if classify(x) == 'unwind']
        hard_unm = [x for x in hard if classify(x) == 'unmodelled']
        res['loc'] = sorted(set((x.get('sourceLocation') or {}).get('function', '') for x in named))
        if not hard:
            if unk:
                raise CheckError('undecided obligations: ' + ', '.join(x['property'] for x in unk[:5]))
            if bad_reach:
                raise CheckError('vacuity guard unreachable: ' + '; '.join(bad_reach))
            res['status'] = 'ok'
            return res
        # order: named postconditions first
        def prio(x):
            return (0 if x['description'].startswith('VF:') else 1 if '.postcondition.' in x['property'] else
                    2 if '.assigns.' in x['property'] else 3, x['property'])
        order = sorted(hard_obl, key=prio) + hard_unw + hard_unm
        first_detail = None
        for x in order[:int(p.get('maxtrace', '3'))]:
            # the trace comes from a SAT back end (JSON traces of the SMT back ends are incomplete)
            rc, out, err, t = run(cbmc_cmd(p, gb, ['--json-ui', '--trace', '--property', x['property']],
                                           solver='cadical' if set(solvers) & {'cvc5', 'z3', 'cadical'} else None),
                                  cwd=wd, timeout=min(tmo, 240))
            res['solver_s'] = round(res['solver_s'] + t, 2)
            tr, _, _ = parse_json(out)
            trace = None
            for y in tr or []:
                if y['property'] == x['property'] and y['status'] == 'FAILURE':
                    trace = y.get('trace')
            vals = trace_inputs(trace or [])
            ok, txt = ('no', 'no trace') if trace is None else replay(p, vals, wd)
            det = {'property': x['property'], 'description': x['description'], 'kind': classify(x),
                   'clause': contract_text(p, x), 'location': x.get('sourceLocation'),
                   'inputs': {k: {str(o): b.hex() for o, b in v.items()} for k, v in vals.items()},
                   'replayed': ok, 'replay_output': txt}
            if first_detail is None:
                first_detail = det
            if ok == 'yes':
                first_detail = det
                break
        res['failures'] = [dict(property=x['property'], description=x['description'], clause=contract_text(p, x))
                           for x in order]
        res['detail'] = first_detail
        if first_detail and first_detail['replayed'] == 'yes':
            res['status'] = 'violated'
        elif hard_obl:
            res['status'] = 'violated-noinput'
        else:
            raise CheckError('proof not applicable to this source (%s): %s' %
                             (classify(order[0]), '; '.join(x['property'] + ' ' + x['description'] for x in order[:4])))
        return res
    except CheckError as e:
        res['status'] = 'error'
        res['error'] = str(e)
        return res
    finally:
        res['wall_s'] = round(time.time() - t0, 2)
        if keep:
            shutil.copytree(wd, keep, dirs_exist_ok=True)
        shutil.rmtree(wd, ignore_errors=True)

def run_proof_fb(p):
    """if the proof cannot be carried out on this source (e.g. a loop the invariants are attached to
    was rewritten), the bounded variant named by fallback= decides, labelled bounded"""
    r = run_proof(p)
    if r['status'] in ('error', 'violated-noinput') and p.get('fallback'):
        q = [x for x in all_proofs() if x['name'] == p['fallback']][0]
        r2 = run_proof(q)
        if r2['status'] != 'error':
            r2['fallback_of'] = p['name']
            r2['fallback_because'] = r['error'] or '; '.join(f['property'] for f in r['failures'][:5])
            p.clear(); p.update(q)
            return r2
    return r

# ----------------------------------------------------------------- reporting
TRUSTED = [
    'CBMC 6.11.0 (goto-cc, goto-instrument --dfcc, cbmc) and its SAT back end',
    'mingw-w64 gcc preprocessor; tools/llp64.py token rewrite long->int (LLP64 target) - see DESIGN.md',
    'CBMC memory model for the host ABI (bit-field layout differs from mingw; only observable through raw byte copies)',
]

def known_findings():
    path = os.path.join(VERIF, 'known-findings.txt')
    r = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'^finding:\s+property=(\S+)\s+proof=(\S+)\s+(.*)$', l.strip())
            if m:
                r.append(m.groups())
    return r

def check(prop):
    t0 = time.time()
    proofs = [p for p in all_proofs() if prop in lst(p, 'props')]
    proofs = [p for p in proofs if p.get('tier') != 'fallback']
    if TIER == 'quick':
        proofs = [p for p in proofs if p.get('tier', 'quick') == 'quick']
    if not proofs:
        print('no proofs for', prop)
        return 2
    known = [k for k in known_findings() if k[0] == prop]
    kproofs = {k[1] for k in known}
    jobs = int(os.environ.get('VF_JOBS', '8'))
    main = [p for p in proofs if not p.get('known')]
    kps = [p for p in proofs if p.get('known')]
    main.sort(key=lambda p: -int(p.get('weight', '1')))
    with ThreadPoolExecutor(jobs) as ex:
        results = list(ex.map(run_proof_fb, main + kps))
    rmain, rk = results[:len(main)], results[len(main):]
    viol = 0
    err = []
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    for p, r in zip(kps, rk):
        fid = [k for k in known if k[1] == p['name']]
        if r['status'] in ('violated', 'violated-noinput') and fid:
            print('KNOWN-FINDING: property=%s %s' % (prop, fid[0][2]))
        elif r['status'] in ('violated', 'violated-noinput'):
            rmain.append(r); main.append(p)
        elif r['status'] == 'error':
            err.append((p['name'], r['error']))
    for p, r in zip(main, rmain):
        if r['status'] in ('violated', 'violated-noinput'):
            viol += 1
            path = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, p['name']))
            json.dump({'property': prop, 'proof': p['name'], 'contract_file': p['file'],
                       'failed_obligations': r['failures'], 'counterexample': r['detail'],
                       'rerun': 'python3 vf.py replay %s' % path}, open(path, 'w'), indent=1)
            d = r['detail'] or {}
            print('proof %s: obligation %s failed: %s  [%s]' % (p['name'], d.get('property'), d.get('description'), d.get('clause')))
            tail = '' if r['status'] == 'violated' else ' no-failing-input-found'
            print('VIOLATION property=%s replay=%s%s' % (prop, path, tail))
        elif r['status'] == 'error':
            err.append((p['name'], r['error']))
    ev = evidence(prop, main, rmain, kps, rk, viol, err, time.time() - t0)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for n, e in err:
        print('CHECK-ERROR proof %s: %s' % (n, e))
    if viol:
        return 1
    if err:
        return 2
    c = ev['coverage']
    print('OK property=%s proofs=%d obligations=%d discharged=%d bounded=%d solver=%.1fs wall=%.1fs' %
          (prop, len(rmain), c['obligations'], c['discharged'], c.get('bounded_obligations', 0), c['solver_s'], ev['wall_s']))
    return 0

def stub_scan(files):
    """mechanical scan: assumptions and stand-ins in the contract files"""
    res = []
    for f in files:
        for i, l in enumerate(open(f), 1):
            m = re.search(r'/\*\s*@(stub|trust|assume)\s+(.*?)\*/', l)
            if m:
                res.append('%s:%d %s %s' % (os.path.basename(f), i, m.group(1), m.group(2).strip()))
    return res

def evidence(prop, main, rmain, kps, rk, viol, err, wall):
    man = {}
    try:
        man = {c['property']: c for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']}
    except (OSError, ValueError):
        pass
    level = man.get(prop, {}).get('level', 'proof')
    allp = list(zip(main, rmain)) + list(zip(kps, rk))
    full = [(p, r) for p, r in allp if not p.get('bounded')]
    bnd = [(p, r) for p, r in allp if p.get('bounded')]
    files = sorted(set(p['file'] for p, _ in allp))
    enforced = sorted(set(f for p, _ in allp for f in lst(p, 'enforce') + lst(p, 'under')))
    replaced = sorted(set(f for p, _ in allp for f in lst(p, 'replace')))
    cov = {
        'obligations': sum(r['obligations'] for _, r in full),
        'discharged': sum(r['discharged'] for _, r in full),
        'bounded_obligations': sum(r['obligations'] for _, r in bnd),
        'bounded_discharged': sum(r['discharged'] for _, r in bnd),
        'named_obligations': sum(r.get('named_obligations', 0) for _, r in allp),
        'checker_cmd': 'vf.py check %s ; per proof: %s' % (prop, (rmain[0].get('cmd') if rmain else '')),
        'back_end': sorted(set(r.get('back_end', 'none') for _, r in allp)),
        'solver_s': round(sum(r['solver_s'] for _, r in allp), 2),
        'functions_under_contract': enforced,
        'callees_replaced_by_their_contract': replaced,
        'vacuity_guards_refuted_as_required': sum(r['reach'] for _, r in allp),
        'proofs': [dict(name=p['name'], file=os.path.relpath(p['file'], VERIF), enforce=lst(p, 'enforce') or lst(p, 'under'),
                        status=r['status'], obligations=r['obligations'], discharged=r['discharged'],
                        bounded=(p.get('bounded') or None), unwind=p.get('unwind', '2'),
                        solver_s=r['solver_s'], **({'stands_in_for': r['fallback_of'], 'because': r['fallback_because']}
                                                   if 'fallback_of' in r else {})) for p, r in allp],
        'trusted_base': TRUSTED + stub_scan(files),
        'samples': [dict(proof=r['proof'], checked=r.get('loc', [])[:4]) for _, r in allp[:3]],
    }
    if level != 'proof':
        cov['explanation'] = man.get(prop, {}).get('level_note', 'contract proofs, some with a stated bound')
    return {'property': prop, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov,
            'assumptions': TRUSTED + stub_scan(files) + ['bounded: %s: %s' % (p['name'], p['bounded']) for p, _ in bnd]
            + ['machine integers are modelled bit-precisely; signed overflow is treated as wrap-around'],
            'wall_s': round(wall, 2), 'violations': viol}

def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    c = sys.argv[1]
    if c == 'check':
        return check(sys.argv[2])
    if c == 'setup':
        for t in ('goto-cc', 'goto-instrument', 'cbmc', 'wine', CC):
            if not shutil.which(t):
                print('missing', t); return 1
        print('proofs:', len(all_proofs()))
        return 0
    if c == 'list':
        for p in all_proofs():
            print(p)
        return 0
    if c == 'replay':
        d = json.load(open(sys.argv[2]))
        p = [x for x in all_proofs() if x['name'] == d['proof']][0]
        vals = {k: {int(o): bytes.fromhex(b) for o, b in v.items()} for k, v in d['counterexample']['inputs'].items()}
        wd = tempfile.mkdtemp(prefix='vf.')
        ok, txt = replay(p, vals, wd)
        shutil.rmtree(wd)
        print(txt); print('violated' if ok == 'yes' else 'not reproduced')
        return 1 if ok == 'yes' else 0
    if c == 'proof':
        ps = [x for x in all_proofs() if re.fullmatch(sys.argv[2], x['name'])]
        rc = 0
        ex = ThreadPoolExecutor(int(os.environ.get('VF_JOBS', '8')))
        for p, r in zip(ps, ex.map(lambda p: run_proof(p, keep=os.environ.get('VF_KEEP')), ps)):
            d = r.get('detail')
            print('%-28s %-18s obl=%d ok=%d reach=%d solver=%.1fs wall=%.1fs' % (p['name'], r['status'], r['obligations'],
                  r['discharged'], r['reach'], r['solver_s'], r['wall_s']))
            if r['error']:
                print('   ', r['error'])
            for f in r['failures'][:12]:
                print('   FAIL', f['property'], '|', f['description'], '|', f['clause'])
            if d:
                print('   inputs', json.dumps(d['inputs'])[:1500])
                print('   replayed', d['replayed'], d['replay_output'][-600:])
            rc |= r['status'] != 'ok'
        return rc
    return 2

if __name__ == '__main__':
    sys.exit(main())
