# SM4 S-box from its algebraic definition
P=0x1f5
def mul(a,b):
    r=0
    while b:
        if b&1: r^=a
        a<<=1
        if a&0x100: a^=P
        b>>=1
    return r
def inv(a):
    if a==0: return 0
    for b in range(256):
        if mul(a,b)==1: return b
def aff(x,row=0xA7):
    r=0
    for i in range(8):
        m=((row<<i)|(row>>(8-i)))&0xff
        r|=(bin(m&x).count('1')&1)<<i
    return r
import re
src=open('/repo/sm4/sm4.go').read()
t=[int(x,16) for x in re.findall(r'0x([0-9a-f]{2}),',src)][:256]
import itertools
ok=None
for row in range(256):
  for c in [0xd3]:
    if all((aff(inv(aff(x,row)^c),row)^c)==t[x] for x in range(256)):
        ok=(row,c)
print(ok)
