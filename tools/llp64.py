#!/usr/bin/env python3
"""Mechanical LLP64 -> LP64 translation of preprocessed C.

The program that runs is a Win64 program (mingw-w64): long is 32 bits wide.
goto-cc on this host has only an LP64 front end, so the preprocessed text is
rewritten token by token:

  * the type keyword 'long'            -> nothing/'int'   (32 bits on both)
  * 'long long' / 'long double'        -> unchanged
  * integer-literal suffix  L / UL     -> '' / U          ('LL' kept)
  * __attribute__((__cdecl__)), ((__stdcall__)), dllimport ... dropped

  * X->e.M->f  (M: a pointer member of union dsym.e, which are all at offset 0)
                                       -> ((struct T *)X->e.seginfo)->f
    (cbmc 6.11 loses the points-to set of a union member that is not the first
    one when it is dereferenced in place; the two expressions are the same load)

  * the two pointer members of the union in struct qnode are swapped (same
    layout; for the same reason)

String and character literals, identifiers and everything else are copied
unchanged.  Nothing else is touched.
"""
import re, sys

TOK = re.compile(r'''
   (?P<str>L?"(?:[^"\\\n]|\\.)*")
 | (?P<chr>L?'(?:[^'\\\n]|\\.)*')
 | (?P<num>\.?[0-9](?:[eEpP][+-]|[0-9A-Za-z_.])*)
 | (?P<id>[A-Za-z_$][A-Za-z_0-9$]*)
 | (?P<nl>\n)
 | (?P<ws>[ \t\r\f\v]+)
 | (?P<pp>\#[^\n]*)
 | (?P<op>.)
''', re.X | re.S)

DROP_ATTR = {'cdecl', '__cdecl__', 'stdcall', '__stdcall__', 'dllimport', '__dllimport__',
             'ms_abi', '__ms_abi__'}
TYPEKW = {'long', 'int', 'short', 'char', 'unsigned', 'signed', 'double', 'float', '_Bool',
          '__int128', '__signed__', '__signed'}
QUAL = {'const', 'volatile', 'static', 'extern', 'register', 'inline', '__inline', '__inline__'}

def fixnum(s):
    if re.match(r'^0[xX][0-9a-fA-F]+[uUlL]*$', s) or re.match(r'^[0-9]+[uUlL]*$', s):
        m = re.match(r'^(0[xX][0-9a-fA-F]+|[0-9]+)([uUlL]*)$', s)
        body, suf = m.group(1), m.group(2)
        u = 'U' if 'u' in suf.lower() else ''
        l = suf.lower().count('l')
        if l == 2:
            return body + suf
        if l == 1:
            return body + u
    return s

UNION_E = {'structinfo': 'struct_info', 'grpinfo': 'grp_info', 'procinfo': 'proc_info', 'macroinfo': 'macro_info'}
UNI = re.compile(r'(->|\.)\s*e\s*\.\s*(structinfo|grpinfo|procinfo|macroinfo)(\s*->)')

def postfix_start(s, j):
    """start of the postfix expression that ends just before index j"""
    while True:
        while j > 0 and s[j-1].isspace(): j -= 1
        c = s[j-1]
        if c in ')]':
            d = 0
            while True:
                j -= 1
                if s[j] in ')]': d += 1
                elif s[j] in '([':
                    d -= 1
                    if d == 0: break
            k = j
            while k > 0 and s[k-1].isspace(): k -= 1
            if s[k-1].isalnum() or s[k-1] == '_' or c == ']':
                if s[k-1].isalnum() or s[k-1] in '_)]':
                    j = k
                    if s[k-1] in ')]': continue
                    while j > 0 and (s[j-1].isalnum() or s[j-1] == '_'): j -= 1
        elif c.isalnum() or c == '_':
            while j > 0 and (s[j-1].isalnum() or s[j-1] == '_'): j -= 1
        else:
            return None
        k = j
        while k > 0 and s[k-1].isspace(): k -= 1
        if s[k-2:k] == '->': j = k - 2
        elif s[k-1] == '.': j = k - 1
        else: return j

def union_e(s):
    while True:
        m = None
        for m in UNI.finditer(s): pass          # last one first: inner prefixes stay valid
        if m is None: return s
        a = postfix_start(s, m.start())
        if a is None: raise ValueError('cannot parse ' + s[max(0, m.start()-60):m.end()])
        s = s[:a] + '((struct %s *)%s%se.seginfo)%s' % (UNION_E[m.group(2)], s[a:m.start()], m.group(1), m.group(3)) + s[m.end():]

DBG = re.compile(r'(->|\.)\s*debuginfo(\s*->)')

def debuginfo(s):               # the same for the pointer unions of struct asym
    while True:
        m = None
        for m in DBG.finditer(s): pass
        if m is None: return s
        a = postfix_start(s, m.start())
        if a is None: raise ValueError('cannot parse ' + s[max(0, m.start()-60):m.end()])
        s = s[:a] + '((struct debug_info *)' + s[a:m.start()] + m.group(1) + 'altname)' + m.group(2) + s[m.end():]

QNODE = re.compile(r'(const\s+void\s*\*\s*elmt\s*;)(\s*)(struct\s+asym\s*\*\s*sym\s*;)')

def translate(src):
    return debuginfo(union_e(QNODE.sub(r'\3\2\1', translate_tokens(src))))

def translate_tokens(src):
    toks = []
    for m in TOK.finditer(src):
        toks.append((m.lastgroup, m.group()))
    out = []
    n = len(toks)
    i = 0
    def nextsig(j):
        while j < n and toks[j][0] in ('ws', 'nl'):
            j += 1
        return j
    while i < n:
        k, t = toks[i]
        if k == 'num':
            out.append(fixnum(t)); i += 1; continue
        if k == 'id' and t in ('__attribute__', '__attribute'):
            j = nextsig(i + 1)
            if j < n and toks[j][1] == '(':
                d = 0; e = j; body = []
                while e < n:
                    if toks[e][1] == '(' : d += 1
                    elif toks[e][1] == ')':
                        d -= 1
                        if d == 0: break
                    elif toks[e][0] == 'id': body.append(toks[e][1])
                    e += 1
                if body and all(b in DROP_ATTR for b in body):
                    out.append('\n' * sum(1 for x in toks[i:e+1] if x[0] == 'nl'))
                    i = e + 1; continue
            out.append(t); i += 1; continue
        if k == 'id' and t in TYPEKW:
            # collect the run of specifier tokens
            run = []; j = i
            while j < n and (toks[j][0] in ('ws', 'nl') or (toks[j][0] == 'id' and (toks[j][1] in TYPEKW or toks[j][1] in QUAL))):
                run.append(toks[j]); j += 1
            while run and run[-1][0] in ('ws', 'nl'):
                run.pop(); j -= 1
            words = [x[1] for x in run if x[0] == 'id']
            nl = words.count('long')
            if nl == 1 and 'double' not in words:
                has_int = 'int' in words
                res = []
                for kk, tt in run:
                    if kk == 'id' and tt == 'long':
                        res.append('' if has_int else 'int')
                    else:
                        res.append(tt)
                out.append(''.join(res))
            else:
                out.append(''.join(x[1] for x in run))
            i = j; continue
        out.append(t); i += 1
    return ''.join(out)

if __name__ == '__main__':
    s = open(sys.argv[1], errors='surrogateescape').read()
    sys.stdout.write(translate(s))
