#!/usr/bin/env python3
"""Development-time cross validation of the reference model (/verif/ref) against
implementations that are independent of both it and libkripto: Python hashlib
(OpenSSL), libgcrypt (through ctypes, if present) and published vectors.
Not used by any check."""
import ctypes, hashlib, hmac as pyhmac, os, random, subprocess, sys, tempfile
here=os.path.dirname(os.path.abspath(__file__)); ref=os.path.dirname(here)
so=tempfile.mktemp(suffix='.so')
subprocess.check_call(['g++','-std=c++17','-O2','-shared','-fPIC','-w','-o',so]+[here+'/cref.cpp',ref+'/blocks.cpp',ref+'/hashes.cpp',ref+'/modes.cpp'])
L=ctypes.CDLL(so); os.unlink(so)
R=random.Random(1); rb=lambda n: bytes(R.getrandbits(8) for _ in range(n))
def blk(n,k,x,r=0,dec=0):
    o=ctypes.create_string_buffer(256); bs=L.c_block(n.encode(),r,k,len(k),x,o,dec); return o.raw[:bs]
def hsh(n,m,ol,salt=b'',r=0):
    o=ctypes.create_string_buffer(max(ol,1)); assert L.c_hash(n.encode(),r,salt,len(salt),m,ctypes.c_size_t(len(m)),ol,o)==0; return o.raw[:ol]
bad=0; cnt=0
def eq(what,a,b):
    global bad,cnt
    cnt+=1
    if a!=b: bad+=1; print('MISMATCH',what,a.hex(),b.hex())
for t in range(300):
    m=rb(R.randrange(0,400))
    eq('md5',hsh('md5',m,16),hashlib.md5(m).digest()); eq('sha1',hsh('sha1',m,20),hashlib.sha1(m).digest())
    for n,o,f in (('sha2_256',28,'sha224'),('sha2_256',32,'sha256'),('sha2_512',48,'sha384'),('sha2_512',64,'sha512'),('sha3',28,'sha3_224'),('sha3',32,'sha3_256'),('sha3',48,'sha3_384'),('sha3',64,'sha3_512')):
        eq(f,hsh(n,m,o),hashlib.new(f,m).digest())
    ol=R.randrange(1,65); s=rb(R.randrange(0,17)); eq('blake2b',hsh('blake2b',m,ol,s),hashlib.blake2b(m,digest_size=ol,salt=s).digest())
    ol=R.randrange(1,33); s=rb(R.randrange(0,9)); eq('blake2s',hsh('blake2s',m,ol,s),hashlib.blake2s(m,digest_size=ol,salt=s).digest())
    k=rb(R.randrange(1,200)); o=ctypes.create_string_buffer(64); L.c_hmac(b'sha2_512',k,len(k),m,ctypes.c_size_t(len(m)),o,64); eq('hmac512',o.raw[:64],pyhmac.new(k,m,'sha512').digest())
for t in range(20):
    p=rb(R.randrange(1,100)); s=rb(R.randrange(0,100)); n=R.randrange(1,150); it=R.randrange(1,50)
    o=ctypes.create_string_buffer(n); L.c_pbkdf2(b'sha2_256',p,len(p),s,len(s),it,o,ctypes.c_size_t(n)); eq('pbkdf2',o.raw,hashlib.pbkdf2_hmac('sha256',p,s,it,n))
    N=1<<R.randrange(1,8); r=R.randrange(1,9); pp=R.randrange(1,5)
    L.c_scrypt(p,len(p),s,len(s),ctypes.c_uint64(N),r,pp,o,ctypes.c_size_t(n)); eq('scrypt',o.raw,hashlib.scrypt(p,salt=s,n=N,r=r,p=pp,dklen=n))
# published vectors
H=bytes.fromhex
def skein(nw,m,ol,k=b''):
    o=ctypes.create_string_buffer(ol); L.c_skein(nw,k,len(k),m,ctypes.c_size_t(len(m)),ol,o); return o.raw
eq('skein256',skein(4,b'',32),H('C8877087DA56E072870DAA843F176E9453115929094C3A40C463A196C29BF7BA'))
eq('skein512',skein(8,b'',64),H('BC5B4C50925519C290CC634277AE3D6257212395CBA733BBAD37A4AF0FA06AF41FCA7903D06564FEA7A2D3730DBDB80C1F85562DFCC070334EA4D1D9E72CBA7A'))
eq('skein256 FF',skein(4,b'\xff',32),H('0B98DCD198EA0E50A7A244C444E25C23DA30C10FC9A1F270A6637F1F34E67ED2'))
eq('skein512 FF',skein(8,b'\xff',64),H('71B7BCE6FE6452227B9CED6014249E5BF9A9754C3AD618CCC4E0AAE16B316CC8CA698D864307ED3E80B6EF1570812AC5272DC409B5A012DF2A579102F340617A'))
eq('skein1024 FF',skein(16,b'\xff',128),H('E62C05802EA0152407CDD8787FDA9E35703DE862A4FBC119CFF8590AFE79250BCCC8B3FAF1BD2422AB5C0D263FB2F8AFB3F796F048000381531B6F00D85161BC0FFF4BEF2486B1EBCD3773FABF50AD4AD5639AF9040E3F29C6C931301BF79832E9DA09857E831E82EF8B4691C235656515D437D2BDA33BCEC001C67FFDE15BA8'))
eq('blake256',hsh('blake256',b'\0',32),H('0CE8D4EF4DD7CD8D62DFDED9D4EDB0A774AE6A41929A74DA23109E8F11139C87'))
eq('blake256-72',hsh('blake256',bytes(72),32),H('D419BAD32D504FB7D44D460C42C5593FE544FA4C135DEC31E21BD9ABDCC22D41'))
eq('blake224',hsh('blake256',b'\0',28),H('4504CB0314FB2A4F7A692E696E487912FE3F2468FE312C73A5278EC5'))
eq('blake512',hsh('blake512',b'\0',64),H('97961587F6D970FABA6D2478045DE6D1FABD09B61AE50932054D52BC29D31BE4FF9102B9F69E2BBDB83BE13D4B9C06091E5FA0B48BD081B634058BE0EC49BEB3'))
eq('blake384',hsh('blake512',b'\0',48),H('10281F67E135E90AE8E882251A355510A719367AD70227B137343E1BC122015C29391E8545B5272D13A7C2879DA3D807'))
# libgcrypt
try: G=ctypes.CDLL('libgcrypt.so.20')
except OSError: G=None
if G:
    G.gcry_check_version(None); sz=ctypes.c_size_t
    def gblk(algo,key,x,dec=0):
        h=ctypes.c_void_p(); assert G.gcry_cipher_open(ctypes.byref(h),algo,1,0)==0,algo
        e=G.gcry_cipher_setkey(h,key,sz(len(key)))
        if e: G.gcry_cipher_close(h); return None
        o=ctypes.create_string_buffer(len(x)); f=G.gcry_cipher_decrypt if dec else G.gcry_cipher_encrypt
        f(h,o,sz(len(x)),x,sz(len(x))); G.gcry_cipher_close(h); return o.raw
    C=[('idea',1,(16,),8),('des',2,(24,),8),('cast5',3,(16,),8),('blowfish',4,(16,),8),('aes',7,(16,),16),('aes',8,(24,),16),('aes',9,(32,),16),('twofish',10,(32,),16),('twofish',303,(16,),16),('serpent',304,(16,),16),('serpent',305,(24,),16),('serpent',306,(32,),16),('rc2',307,(5,8,16,100),8),('seed',309,(16,),16),('camellia',310,(16,),16),('camellia',311,(24,),16),('camellia',312,(32,),16),('sm4',318,(16,),16)]
    for n,a,ks,bs in C:
        for t in range(50):
            k=rb(R.choice(ks)); x=rb(bs)
            for dec in (0,1):
                g=gblk(a,k,x,dec)
                if g is None: continue
                eq('gcrypt %s/%d kl=%d'%(n,a,len(k)),blk('rijndael128' if n=='aes' else n,k,x,0,dec),g)
    for n,a,ol in (('tiger',306,24),('whirlpool',305,64)):
        for t in range(100):
            m=rb(R.randrange(0,300)); o=ctypes.create_string_buffer(64); G.gcry_md_hash_buffer(a,o,m,sz(len(m))); eq('gcrypt '+n,hsh(n,m,ol),o.raw[:ol])
    def gstream(algo,key,iv,n):
        h=ctypes.c_void_p(); assert G.gcry_cipher_open(ctypes.byref(h),algo,4,0)==0; G.gcry_cipher_setkey(h,key,sz(len(key)))
        if iv: G.gcry_cipher_setiv(h,iv,sz(len(iv)))
        o=ctypes.create_string_buffer(n); z=bytes(n); G.gcry_cipher_encrypt(h,o,sz(n),z,sz(n)); G.gcry_cipher_close(h); return o.raw
    def ks(w,k,iv,n):
        o=ctypes.create_string_buffer(n); L.c_ks(w,0,k,len(k),iv,len(iv),o,sz(n)); return o.raw
    for t in range(50):
        k=rb(32); iv=rb(8); eq('salsa20',ks(1,k,iv,300),gstream(313,k,iv,300)); eq('chacha20',ks(0,k,iv,300),gstream(316,k,iv,300)); iv=rb(12); eq('chacha20-12',ks(0,k,iv,300),gstream(316,k,iv,300)); k=rb(16); eq('rc4',ks(2,k,b'',300),gstream(301,k,b'',300))
print('compared',cnt,'mismatches',bad); sys.exit(bad!=0)
