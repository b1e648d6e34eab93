#include "ref_impl.h"
#include <cstdio>
#include <iostream>
int main(){ using namespace ref; auto hex=[](const Bytes&b){for(uint8_t c:b)printf("%02x",c);printf(" ");};
 for(int n=0;n<700;n++){Bytes m;for(int i=0;i<n;i++)m+=char(i*7+n);
  hex(md5(m));hex(sha1(m));hex(sha224(m));hex(sha256(m));hex(sha384(m));hex(sha512(m));hex(sha512_t(m,224));hex(sha512_t(m,256));
  for(int b:{224,256,384,512})hex(sha3(m,b));hex(shake(m,128,500));hex(shake(m,256,500));hex(blake2b(m,64));hex(blake2b(m,32));hex(blake2b(m,64,n?m.substr(0,1+n%64):Bytes{}));
  hex(hmac(sha256,64,m.substr(0,n%150),m));hex(hmac(sha512,128,m.substr(0,n%300),m));puts("");}
 Bytes m; for(int i=0;i<3072;i++)m+=char(i%251); hex(blake3(m,32)); hex(blake3(m.substr(0,0),32)); hex(blake3_keyed("whats the Elvish word for friend",m,32)); hex(blake3_derive("BLAKE3 2019-12-27 16:29:52 test vectors context",m,32));
 printf("%llx %llx\n",(unsigned long long)xxh64("abc",0),(unsigned long long)siphash24(Bytes("\0\1\2\3\4\5\6\7\10\11\12\13\14\15\16",15).substr(0,15),0x0706050403020100ULL,0x0f0e0d0c0b0a0908ULL));}
