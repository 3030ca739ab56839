def grain(field,sbox,n,t,rf,rp):
    b=lambda v,k:[int(x) for x in bin(v)[2:].zfill(k)]
    s=b(field,2)+b(sbox,4)+b(n,12)+b(t,12)+b(rf,10)+b(rp,10)+[1]*30
    def nb():
        x=s[62]^s[51]^s[38]^s[23]^s[13]^s[0]; s.pop(0); s.append(x); return x
    for _ in range(160): nb()
    while 1:
        x=nb()
        while x==0:
            nb(); x=nb()
        yield nb()
def consts(p,field,sbox,n,t,rf,rp):
    g=grain(field,sbox,n,t,rf,rp)
    def r(): 
        v=0
        for _ in range(n): v=v*2+next(g)
        return v
    C=[]
    for _ in range((rf+rp)*t):
        v=r()
        while v>=p: v=r()
        C.append(v)
    def matrix():
        while 1:
            L=[r()%p for _ in range(2*t)]
            while len(set(L))!=2*t: L=[r()%p for _ in range(2*t)]
            xs,ys=L[:t],L[t:]
            if all((x+y)%p for x in xs for y in ys): return [[pow(x+y,p-2,p) for y in ys] for x in xs]
    return C,matrix
if __name__=="__main__":
    bn=21888242871839275222246405745257275088548364400416034343698204186575808495617
    bl=52435875175126190479447740508185965837690552500527637822603658699938581184513
    C,m=consts(bn,1,0,254,2,8,56); print(hex(C[0]),[[hex(x) for x in r] for r in m()])
    for sb in (0,1,2):
        C,m=consts(bl,1,sb,255,2,8,55); print(sb,hex(C[0]),hex(C[1]))
        C,m=consts(bl,1,sb,255,2,8,56); print(sb,hex(C[0]),hex(C[1]), hex(m()[0][0]))
