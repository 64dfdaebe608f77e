import json
def off(p,b): return "((unsigned long long)%s - (unsigned long long)%s)"%(p,b)
P="(in_cur - in_start)"
def frame(step,i): return "(in_f >= sizeof(cb) || (in_f >= %s && in_f < %s + %s) || cb[in_f] == cb0[in_f])"%(P,P,i)
binl0={"loop_id":"0","assigns":"len, pBytes, __CPROVER_object_whole(&vf)",
 "invariants":"len <= in_len && vf.n == in_len - len && vf.bad == 0 && vf.flush == 0 && vf.sel == 0 && __CPROVER_same_object(pBytes, in_p) && %s == in_len - len"%off("pBytes","in_p"),
 "decreases":"len","symbol_map":"len,OutputBinBytes::len;pBytes,OutputBinBytes::pBytes"}
binl1={"loop_id":"1","assigns":"i, idx, pBytes, __CPROVER_object_whole(cb)",
 "invariants":"i >= 0 && i <= (int)in_len && idx == %s + i && __CPROVER_same_object(pBytes, in_p) && %s == i && (in_k >= i || cb[%s + in_k] == in_p[in_k]) && %s"%(P,off("pBytes","in_p"),P,frame(1,"i")),
 "decreases":"in_len - i","symbol_map":"i,OutputBinBytes::1::i;idx,OutputBinBytes::1::2::idx;pBytes,OutputBinBytes::pBytes;len,OutputBinBytes::len"}
il0={"loop_id":"0","assigns":"len, pbytes, __CPROVER_object_whole(&vf)",
 "invariants":"len >= 0 && len <= (int)in_len && vf.n == 2 * (in_len - len) && vf.bad == 0 && vf.flush == 0 && vf.sel == 0 && __CPROVER_same_object(pbytes, in_p) && %s == in_len - len"%off("pbytes","in_p"),
 "decreases":"len","symbol_map":"len,OutputInterleavedBytes::len;pbytes,OutputInterleavedBytes::pbytes"}
il1={"loop_id":"1","assigns":"i, pOut, pbytes, __CPROVER_object_whole(cb)",
 "invariants":"i >= 0 && i <= 2 * (int)in_len && __CPROVER_same_object(pOut, cb) && %s == %s + i && __CPROVER_same_object(pbytes, in_p) && %s == (i + 1) / 2 && (2 * in_k >= i || cb[%s + 2 * in_k] == in_p[in_k]) && (2 * in_k + 1 >= i || cb[%s + 2 * in_k + 1] == 0) && %s"%(off("pOut","cb"),P,off("pbytes","in_p"),P,P,frame(2,"i")),
 "decreases":"2 * in_len - i","symbol_map":"i,OutputInterleavedBytes::1::i;pOut,OutputInterleavedBytes::1::pOut;pbytes,OutputInterleavedBytes::pbytes;len,OutputInterleavedBytes::len"}
fl0={"loop_id":"0","assigns":"len, __CPROVER_object_whole(&vf)",
 "invariants":"len >= 0 && len <= (int)in_len && vf.n == in_len - len && vf.bad == 0 && vf.flush == 0 && vf.sel == in_cdc","decreases":"len","symbol_map":"len,FillDataBytes::len"}
def w(n,f,l):
    json.dump({"sources":["emit.c"],"functions":[{f:l}],"output":"OUTPUT"},open("/verif/contracts/emit_%s.json"%n,"w"),indent=1)
w("bin","OutputBinBytes",[binl0,binl1]); w("wide","OutputInterleavedBytes",[il0,il1]); w("fill","FillDataBytes",[fl0])
