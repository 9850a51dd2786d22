import sys
# ctype table in glibc's bit layout (little endian): indices -128..255
U,L,A,D,X,S,P,G,B,C,PU,AN=[(1<<(b+8)) if b<8 else (1<<(b-8)) for b in range(12)]
import string
t=[]
for i in range(-128,256):
    v=0
    if 0<=i<128:
        c=chr(i)
        if c in string.ascii_uppercase: v|=U|A|AN
        if c in string.ascii_lowercase: v|=L|A|AN
        if c in string.digits: v|=D|AN
        if c in string.hexdigits: v|=X
        if c in ' \t\n\v\f\r': v|=S
        if 32<=i<=126: v|=P
        if 33<=i<=126: v|=G
        if c in ' \t': v|=B
        if i<32 or i==127: v|=C
        if 33<=i<=126 and not c.isalnum(): v|=PU
    t.append(v)
print('static const unsigned short ctab[384]={'+','.join(map(str,t))+'};')
