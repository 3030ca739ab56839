"""Generates vc/data/poseidon_curves.json.gz: the published Poseidon parameters (hadeshash / Neptune Grain LFSR),
independent of /repo.  sets: bn128 (circomlib), bls12381 (same generator, BLS12-381), bls12381_opt (Neptune)."""
import json, gzip, os
from multiprocessing import Pool
from grain import consts
bn=21888242871839275222246405745257275088548364400416034343698204186575808495617
bl=52435875175126190479447740508185965837690552500527637822603658699938581184513
RP=[56,57,56,60,60,63,64,63,60,66,60,65,70,60,64,68]
RPN=[55,55,56,56,56,56,57,57,57,57,57,57,57,57,59,59]
def one(a):
    name,k=a; t=k+2
    if name=="bls12381_opt":
        C,_=consts(bl,1,1,255,t,8,RPN[k]); M=[[pow(i+t+j,bl-2,bl) for j in range(t)] for i in range(t)]; return a,C,M,RPN[k]
    p,n=(bn,254) if name=="bn128" else (bl,255)
    C,m=consts(p,1,0,n,t,8,RP[k]); return a,C,m(),RP[k]
if __name__=="__main__":
    out={}
    with Pool(8) as P:
        for (name,k),C,M,rp in P.imap(one,[(n,k) for k in range(15,-1,-1) for n in ("bn128","bls12381","bls12381_opt")]):
            out.setdefault(name,{})[k+2]=dict(C=[hex(x)[2:] for x in C],M=[[hex(x)[2:] for x in r] for r in M],rp=rp)
    with gzip.GzipFile(os.path.join(os.path.dirname(os.path.abspath(__file__)),"../vc/data/poseidon_curves.json.gz"),"wb",mtime=0) as f: f.write(json.dumps(out,sort_keys=True).encode())
