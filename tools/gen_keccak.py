#!/usr/bin/env python3
"""Writes harness/ref/keccak_fast.go: Keccak-f[1600] with the theta/rho/pi/chi
index arithmetic evaluated at generation time (self_test compares it with the
textbook version)."""
rot=[[0]*5 for _ in range(5)]
x,y=1,0
for t in range(24):
    rot[x][y]=(t+1)*(t+2)//2%64
    x,y=y,(2*x+3*y)%5
o=['// Code generated by tools/gen_keccak.py. DO NOT EDIT.','','package ref','','import "math/bits"','','func keccakF1600Fast(a *[25]uint64) {']
names=['a%d'%i for i in range(25)]
o.append('\t'+', '.join(names)+' := '+', '.join('a[%d]'%i for i in range(25)))
o.append('\tfor ir := 0; ir < 24; ir++ {')
for x in range(5): o.append('\t\tc%d := '%x+' ^ '.join('a%d'%(x+5*y) for y in range(5)))
for x in range(5): o.append('\t\td%d := c%d ^ bits.RotateLeft64(c%d, 1)'%(x,(x+4)%5,(x+1)%5))
for x in range(5):
    for y in range(5):
        t=y+5*((2*x+3*y)%5)
        o.append('\t\tb%d := bits.RotateLeft64(a%d^d%d, %d)'%(t,x+5*y,x,rot[x][y]))
for y in range(0,25,5):
    for x in range(5):
        rc=' ^ keccakRC[ir]' if x+y==0 else ''
        o.append('\t\ta%d = b%d ^ (^b%d & b%d)%s'%(x+y,x+y,(x+1)%5+y,(x+2)%5+y,rc))
o.append('\t}')
for i in range(25): o.append('\ta[%d] = a%d'%(i,i))
o.append('}')
open('/verif/harness/ref/keccak_fast.go','w').write('\n'.join(o)+'\n')
