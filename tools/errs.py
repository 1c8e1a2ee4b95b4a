#!/usr/bin/env python3
# dev: concise error list of build/verus.log: message, function, source line
import re,json,sys
rep=json.load(open('/verif/build/rep.json')); out=open('/verif/build/out.rs').read().split('\n')
fns=sorted((f['start'],f['end'],f['key']) for f in rep['fns'])
TR=('codec::Encode::','codec::ArrayEncode::','codec::Decode::','codec::DecodeFormatted::','codec::ArrayDecode::')
def fn(l):
    b=''
    for s,e,k in fns:
        if s<=l<=e: b=k
    return b
log=open('/verif/build/verus.log').read()
n=0; lim=int(sys.argv[1]) if len(sys.argv)>1 else 30; v=len(sys.argv)>2
for blk in re.split(r'\n(?=error|note: )',log):
    if not blk.startswith('error'): continue
    msg=blk.split('\n')[0]
    locs=[int(x) for x in re.findall(r'build/out\.rs:(\d+):',blk)]
    marks=[int(x) for x in re.findall(r'\n *(\d+) +(?:\||/)',blk)]
    if not locs: print(msg[:150]); continue
    ks=[k for k in (fn(l) for l in marks+locs) if k and not k.startswith(TR)]
    print(msg[:70].replace('function body check: ',''),'@',ks[0] if ks else locs[0])
    if v:
        for l in marks[:5]: print('    ',l,out[l-1].strip()[:150])
    n+=1
    if n>=lim: break
