import hashlib,hmac,sys
lines=open(sys.argv[1]).read().split('\n')
bad=0
for n,l in enumerate(lines[:700]):
    m=bytes((i*7+n)&255 for i in range(n)); f=l.split()
    h=lambda a:hashlib.new(a,m).hexdigest()
    e=[h(a) for a in('md5','sha1','sha224','sha256','sha384','sha512','sha512_224','sha512_256','sha3_224','sha3_256','sha3_384','sha3_512')]
    e+=[hashlib.shake_128(m).hexdigest(500),hashlib.shake_256(m).hexdigest(500),hashlib.blake2b(m).hexdigest(),hashlib.blake2b(m,digest_size=32).hexdigest(),hashlib.blake2b(m,key=m[:1+n%64] if n else b'').hexdigest(),hmac.new(m[:n%150],m,'sha256').hexdigest(),hmac.new(m[:n%300],m,'sha512').hexdigest()]
    if e!=f: bad+=1; print(n,[i for i in range(len(e)) if e[i]!=f[i]]) if bad<5 else 0
print('bad',bad)

# BLAKE3 / XXH64 / SipHash published vectors
want=["b98cb0ff3623be03326b373de6b9095218513e64f1ee2edd2525c7ad1e5cffd2","af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262"]
got=lines[700].split()
bad+=got[:2]!=want or got[-2:]!=["44bc2cf5ad770999","a129ca6149be45e5"]
sys.exit(1 if bad else 0)
