#!/usr/bin/env python3
"""Development helper: prints concrete addresses used as constants in harnesses."""
import hashlib,sys
A="123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
def b58(b,A=A):
    n=int.from_bytes(b,'big'); s=''
    while n: n,r=divmod(n,58); s=A[r]+s
    return A[0]*(len(b)-len(b.lstrip(b'\0')))+s
def dsha(b): return hashlib.sha256(hashlib.sha256(b).digest()).digest()
def b58check(pre,h,A=A): 
    d=bytes.fromhex(pre)+bytes.fromhex(h); return b58(d+dsha(d)[:4],A)
C="qpzry9x8gf2tvdw0s3jn54khce6mua7l"
def polymod(v):
    G=[0x3b6a57b2,0x26508e6d,0x1ea119fa,0x3d4233dd,0x2a1462b3];c=1
    for x in v:
        b=c>>25;c=(c&0x1ffffff)<<5^x
        for i in range(5): c^=G[i] if (b>>i)&1 else 0
    return c
def conv(d,f,t,pad=True):
    acc=bits=0;r=[]
    for x in d:
        acc=acc<<f|x;bits+=f
        while bits>=t: bits-=t;r.append(acc>>bits&((1<<t)-1))
    if pad and bits: r.append(acc<<(t-bits)&((1<<t)-1))
    return r
def bech32(hrp,h,ver=0,const=1):
    d=([ver] if ver is not None else [])+conv(bytes.fromhex(h),8,5)
    e=[ord(c)>>5 for c in hrp]+[0]+[ord(c)&31 for c in hrp]
    p=polymod(e+d+[0]*6)^const
    return hrp+'1'+''.join(C[x] for x in d+[p>>5*(5-i)&31 for i in range(6)])
HS=["0000e1a2b3c4d5e6f708192a3b4c5d6e7f809100","ff0102030405060708090a0b0c0d0e0f10111213","89abcdefabbaabbaabbaabbaabbaabbaabbaabba"]
if __name__=="__main__":
    for pre in sys.argv[1:]:
        if pre.startswith("b:"):
            for h in HS: print(pre,h,bech32(pre[2:],h))
        else:
            for h in HS: print(pre,h,b58check(pre,h))
