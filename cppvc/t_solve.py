import sys; sys.path.insert(0,'.')
from term import *; from solve import *
n=var('n','Int');A=var('A',('A','Real'));Bb=var('B',('A','Real'));k=var('k','Int')
H=[forall(['Int'],lambda i: implies(and_(le(I(0),i),lt(i,n)), eq(sel(A,i),sel(Bb,i))))]
g=eq(sum_(n,lambda j: sel(A,j)), sum_(n,lambda j: sel(Bb,j)))
print(prove(H,g), prove([],g))
x,C,ks,c=[var(s,'Int') for s in('x','C','ks','c')]
H=[le(I(0),x),lt(x,ks),le(I(0),c),lt(c,C)]
print(prove(H, lt(add(mul(x,C),c), mul(ks,C))))
print(prove(H, eq(tdiv(add(mul(x,C),c),C),x)), prove(H, eq(tmod(add(mul(x,C),c),C),c)))
y=var('y','Int')
H+=[le(I(0),y)]
W=mul(ks,C)
print(prove(H, eq(tdiv(add(mul(y,W),mul(x,C),c),W),y)))
r=var('r','Real'); m=toreal(n)
print(prove([lt(I(0),n)], eq(mul(rdiv(r,m),m),r)))
print(prove([lt(I(0),n)], lt(mul(rdiv(r,m),m),r)))
