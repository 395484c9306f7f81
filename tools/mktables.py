# constants of FIPS 197 / FIPS 180-4, computed from their definitions
import sys,os
d=os.path.join(os.path.dirname(__file__),'..','spec')
S=[0]*256;p=q=1
while True:
    p=(p^(p<<1)^(0x1b if p&0x80 else 0))&255
    q^=q<<1;q^=q<<2;q^=q<<4;q&=255
    if q&0x80:q^=9
    r=lambda x,k:((x<<k)|(x>>(8-k)))&255
    S[p]=q^r(q,1)^r(q,2)^r(q,3)^r(q,4)^0x63
    if p==1:break
S[0]=0x63
open(d+'/sbox.inc','w').write(','.join(map(str,S))+'\n')
pr=[];n=2
while len(pr)<80:
    if all(n%x for x in pr if x*x<=n):pr.append(n)
    n+=1
def icbrt(n):
    lo,hi=0,1<<((n.bit_length()+2)//3+1)
    while lo<hi:
        m=(lo+hi+1)//2
        if m**3<=n:lo=m
        else:hi=m-1
    return lo
def k(p,b):return icbrt(p<<(3*b))&((1<<b)-1)
open(d+'/k256.inc','w').write(','.join('0x%08xu'%k(p,32) for p in pr[:64])+'\n')
open(d+'/k512.inc','w').write(','.join('0x%016xULL'%k(p,64) for p in pr)+'\n')
