#!/usr/bin/env python3
"""Writes /verif/mc/vectors_sp.txt: BLAKE2sp vectors for validating the Rust reference model (mc/src/refm.rs).
Sources: the official known answers (the BLAKE2 authors' blake2-kat.json, given as argv[1]) and a plain
Python transcription of the specification for digest lengths and key lengths the official file lacks."""
import json, sys, struct, os
IV = [0x6A09E667,0xBB67AE85,0x3C6EF372,0xA54FF53A,0x510E527F,0x9B05688C,0x1F83D9AB,0x5BE0CD19]
SIG = [[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15],[14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3],[11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4],
[7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8],[9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13],[2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9],
[12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11],[13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10],[6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5],[10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0]]
M=0xffffffff
def ror(x,n): return ((x>>n)|(x<<(32-n)))&M
def comp(h,blk,t,f0,f1):
    m=struct.unpack('<16I',blk); v=h[:]+IV[:]
    v[12]^=t&M; v[13]^=t>>32; v[14]^=f0; v[15]^=f1
    def G(a,b,c,d,x,y):
        v[a]=(v[a]+v[b]+x)&M; v[d]=ror(v[d]^v[a],16); v[c]=(v[c]+v[d])&M; v[b]=ror(v[b]^v[c],12)
        v[a]=(v[a]+v[b]+y)&M; v[d]=ror(v[d]^v[a],8); v[c]=(v[c]+v[d])&M; v[b]=ror(v[b]^v[c],7)
    for s in SIG:
        G(0,4,8,12,m[s[0]],m[s[1]]);G(1,5,9,13,m[s[2]],m[s[3]]);G(2,6,10,14,m[s[4]],m[s[5]]);G(3,7,11,15,m[s[6]],m[s[7]])
        G(0,5,10,15,m[s[8]],m[s[9]]);G(1,6,11,12,m[s[10]],m[s[11]]);G(2,7,8,13,m[s[12]],m[s[13]]);G(3,4,9,14,m[s[14]],m[s[15]])
    return [h[i]^v[i]^v[i+8] for i in range(8)]
def node(out,klen,off,depth,last,data):
    p=struct.pack('<BBBBIIHBB16x',out,klen,8,2,0,off,0,depth,32)
    h=[a^b for a,b in zip(IV,struct.unpack('<8I',p))]
    blocks=[data[i:i+64] for i in range(0,len(data),64)] or [b'']
    t=0
    for i,b in enumerate(blocks):
        t+=len(b); fin=i==len(blocks)-1
        h=comp(h,b.ljust(64,b'\0'),t,M if fin else 0,M if fin and last else 0)
    return struct.pack('<8I',*h)
def blake2sp(out,key,msg):
    leaves=b''
    for i in range(8):
        d=(key.ljust(64,b'\0') if key else b'')+b''.join(msg[j:j+64] for j in range(64*i,len(msg),512))
        leaves+=node(out,len(key),i,0,i==7,d)
    return node(out,len(key),0,1,True,leaves)[:out]
if __name__=='__main__':
    hx=lambda b:b.hex() or '-'
    L=[]
    for k in json.load(open(sys.argv[1])):
        if k['hash']=='blake2sp' and (len(k['in'])//2<70 or len(k['in'])//2%16<2):
            L.append('p 32 %s %s %s'%(k['key'] or '-',k['in'] or '-',k['out']))
            assert blake2sp(32,bytes.fromhex(k['key']),bytes.fromhex(k['in'])).hex()==k['out']
    n=0
    for out in (1,2,16,20,31,32):
        for kl in (0,1,16,31,32):
            ml=[0,1,64,65,448,449,512,513,700,960,961,1024,1025,1089,1536,1600][n%16]
            n+=1
            key=bytes((7*i+3)%256 for i in range(kl)); msg=bytes((i*i+3*i+out)%251 for i in range(ml))
            L.append('p %d %s %s %s'%(out,hx(key),hx(msg),blake2sp(out,key,msg).hex()))
    open(os.path.join(os.path.dirname(__file__),'..','mc','vectors_sp.txt'),'w').write('\n'.join(L)+'\n')
    print(len(L))
