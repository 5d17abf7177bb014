/* blake3 (hash mode, XOF), argon2id (v1.3, 1 lane), xsalsa20poly1305, x25519 - small portable
   implementations used by the pysodium / blake3 stand-ins. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

/* ---------------- blake3 ---------------- */
static const uint32_t IV[8] = {0x6A09E667,0xBB67AE85,0x3C6EF372,0xA54FF53A,0x510E527F,0x9B05688C,0x1F83D9AB,0x5BE0CD19};
static const uint8_t PERM[16] = {2,6,3,10,7,0,4,13,1,11,12,5,9,14,15,8};
enum {CHUNK_START=1,CHUNK_END=2,PARENT=4,ROOT=8};
static inline uint32_t ror(uint32_t x,int n){return (x>>n)|(x<<(32-n));}
#define G3(a,b,c,d,x,y) do{ s[a]+=s[b]+(x); s[d]=ror(s[d]^s[a],16); s[c]+=s[d]; s[b]=ror(s[b]^s[c],12); \
  s[a]+=s[b]+(y); s[d]=ror(s[d]^s[a],8); s[c]+=s[d]; s[b]=ror(s[b]^s[c],7);}while(0)
static void compress(const uint32_t cv[8],const uint32_t blk[16],uint64_t ctr,uint32_t len,uint32_t flags,uint32_t out[16]){
  uint32_t s[16],m[16],t[16];
  for(int i=0;i<8;i++)s[i]=cv[i];
  for(int i=0;i<4;i++)s[8+i]=IV[i];
  s[12]=(uint32_t)ctr;s[13]=(uint32_t)(ctr>>32);s[14]=len;s[15]=flags;
  memcpy(m,blk,64);
  for(int r=0;r<7;r++){
    G3(0,4,8,12,m[0],m[1]);G3(1,5,9,13,m[2],m[3]);G3(2,6,10,14,m[4],m[5]);G3(3,7,11,15,m[6],m[7]);
    G3(0,5,10,15,m[8],m[9]);G3(1,6,11,12,m[10],m[11]);G3(2,7,8,13,m[12],m[13]);G3(3,4,9,14,m[14],m[15]);
    for(int i=0;i<16;i++)t[i]=m[PERM[i]];
    memcpy(m,t,64);
  }
  for(int i=0;i<8;i++){out[i]=s[i]^s[i+8];out[i+8]=s[i+8]^cv[i];}
}
typedef struct{uint32_t cv[8];uint32_t blk[16];uint64_t ctr;uint32_t len,flags;}Out;
static void ldblk(uint32_t b[16],const uint8_t*p,size_t n){uint8_t t[64];memset(t,0,64);if(n)memcpy(t,p,n);
  for(int i=0;i<16;i++)b[i]=(uint32_t)t[4*i]|(uint32_t)t[4*i+1]<<8|(uint32_t)t[4*i+2]<<16|(uint32_t)t[4*i+3]<<24;}
static Out chunk(const uint8_t*p,size_t n,uint64_t ctr){
  Out o;uint32_t cv[8],x[16];memcpy(cv,IV,32);uint32_t st=CHUNK_START;
  while(n>64){uint32_t b[16];ldblk(b,p,64);compress(cv,b,ctr,64,st,x);memcpy(cv,x,32);st=0;p+=64;n-=64;}
  memcpy(o.cv,cv,32);ldblk(o.blk,p,n);o.ctr=ctr;o.len=(uint32_t)n;o.flags=st|CHUNK_END;return o;}
static void ocv(const Out*o,uint32_t cv[8]){uint32_t x[16];compress(o->cv,o->blk,o->ctr,o->len,o->flags,x);memcpy(cv,x,32);}
static Out tree(const uint8_t*p,size_t n,uint64_t ctr){
  if(n<=1024)return chunk(p,n,ctr);
  size_t full=(n-1)/1024,l=1;while(l*2<=full)l*=2;
  Out a=tree(p,l*1024,ctr),b=tree(p+l*1024,n-l*1024,ctr+l),o;
  ocv(&a,o.blk);ocv(&b,o.blk+8);memcpy(o.cv,IV,32);o.ctr=0;o.len=64;o.flags=PARENT;return o;}
void k_blake3(const uint8_t*in,size_t n,uint8_t*out,size_t outlen){
  Out o=tree(in,n,0);uint64_t c=0;
  while(outlen){uint32_t x[16];uint8_t b[64];compress(o.cv,o.blk,c++,o.len,o.flags|ROOT,x);
    for(int i=0;i<16;i++){b[4*i]=x[i];b[4*i+1]=x[i]>>8;b[4*i+2]=x[i]>>16;b[4*i+3]=x[i]>>24;}
    size_t k=outlen<64?outlen:64;memcpy(out,b,k);out+=k;outlen-=k;}}

/* ---------------- blake2b ---------------- */
static const uint64_t BIV[8]={0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL};
static const uint8_t SG[12][16]={{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3}};
static inline uint64_t r64(uint64_t x,int n){return (x>>n)|(x<<(64-n));}
static uint64_t ld64(const uint8_t*p){uint64_t v=0;for(int i=7;i>=0;i--)v=v<<8|p[i];return v;}
static void st64(uint8_t*p,uint64_t v){for(int i=0;i<8;i++){p[i]=(uint8_t)v;v>>=8;}}
static void st32(uint8_t*p,uint32_t v){for(int i=0;i<4;i++){p[i]=(uint8_t)v;v>>=8;}}
static uint32_t ld32(const uint8_t*p){return (uint32_t)p[0]|(uint32_t)p[1]<<8|(uint32_t)p[2]<<16|(uint32_t)p[3]<<24;}
static void b2comp(uint64_t h[8],const uint8_t*blk,uint64_t t,int last){
  uint64_t v[16],m[16];for(int i=0;i<8;i++){v[i]=h[i];v[8+i]=BIV[i];}v[12]^=t;if(last)v[14]=~v[14];
  for(int i=0;i<16;i++)m[i]=ld64(blk+8*i);
#define GB(a,b,c,d,x,y) v[a]+=v[b]+x;v[d]=r64(v[d]^v[a],32);v[c]+=v[d];v[b]=r64(v[b]^v[c],24);v[a]+=v[b]+y;v[d]=r64(v[d]^v[a],16);v[c]+=v[d];v[b]=r64(v[b]^v[c],63);
  for(int r=0;r<12;r++){const uint8_t*s=SG[r];
    GB(0,4,8,12,m[s[0]],m[s[1]])GB(1,5,9,13,m[s[2]],m[s[3]])GB(2,6,10,14,m[s[4]],m[s[5]])GB(3,7,11,15,m[s[6]],m[s[7]])
    GB(0,5,10,15,m[s[8]],m[s[9]])GB(1,6,11,12,m[s[10]],m[s[11]])GB(2,7,8,13,m[s[12]],m[s[13]])GB(3,4,9,14,m[s[14]],m[s[15]])}
  for(int i=0;i<8;i++)h[i]^=v[i]^v[i+8];}
static void blake2b(uint8_t*out,size_t ol,const uint8_t*in,size_t n){
  uint64_t h[8];memcpy(h,BIV,64);h[0]^=0x01010000^ol;uint64_t t=0;
  while(n>128){t+=128;b2comp(h,in,t,0);in+=128;n-=128;}
  uint8_t b[128];memset(b,0,128);memcpy(b,in,n);t+=n;b2comp(h,b,t,1);
  uint8_t o[64];for(int i=0;i<8;i++)st64(o+8*i,h[i]);memcpy(out,o,ol);}
static void hprime(uint8_t*out,uint32_t ol,const uint8_t*in,size_t n){
  uint8_t*t=malloc(n+4);st32(t,ol);memcpy(t+4,in,n);
  if(ol<=64){blake2b(out,ol,t,n+4);free(t);return;}
  uint8_t v[64];blake2b(v,64,t,n+4);free(t);memcpy(out,v,32);out+=32;ol-=32;
  while(ol>64){uint8_t w[64];blake2b(w,64,v,64);memcpy(v,w,64);memcpy(out,v,32);out+=32;ol-=32;}
  uint8_t w[64];blake2b(w,ol,v,64);memcpy(out,w,ol);}
/* ---------------- argon2id, p=1, v=0x13 ---------------- */
typedef struct{uint64_t w[128];}Blk;
static inline uint64_t fB(uint64_t x,uint64_t y){return x+y+2*(uint64_t)(uint32_t)x*(uint64_t)(uint32_t)y;}
#define GA(a,b,c,d) a=fB(a,b);d=r64(d^a,32);c=fB(c,d);b=r64(b^c,24);a=fB(a,b);d=r64(d^a,16);c=fB(c,d);b=r64(b^c,63);
#define PR(v0,v1,v2,v3,v4,v5,v6,v7,v8,v9,v10,v11,v12,v13,v14,v15) GA(v0,v4,v8,v12)GA(v1,v5,v9,v13)GA(v2,v6,v10,v14)GA(v3,v7,v11,v15)GA(v0,v5,v10,v15)GA(v1,v6,v11,v12)GA(v2,v7,v8,v13)GA(v3,v4,v9,v14)
static void fillb(const Blk*x,const Blk*y,Blk*o,int xr){
  Blk R,Z;for(int i=0;i<128;i++){R.w[i]=x->w[i]^y->w[i];}
  Z=R;if(xr)for(int i=0;i<128;i++)Z.w[i]^=o->w[i];
  uint64_t*v=R.w;
  for(int i=0;i<8;i++){uint64_t*q=v+16*i;PR(q[0],q[1],q[2],q[3],q[4],q[5],q[6],q[7],q[8],q[9],q[10],q[11],q[12],q[13],q[14],q[15])}
  for(int i=0;i<8;i++){uint64_t*q=v+2*i;PR(q[0],q[1],q[16],q[17],q[32],q[33],q[48],q[49],q[64],q[65],q[80],q[81],q[96],q[97],q[112],q[113])}
  for(int i=0;i<128;i++)o->w[i]=Z.w[i]^R.w[i];}
int k_argon2id(uint8_t*out,uint32_t ol,const uint8_t*pw,uint32_t pl,const uint8_t*salt,uint32_t sl,uint32_t t_cost,uint32_t m_kib,int type){
  uint32_t m=m_kib<8?8:m_kib;uint32_t seg=m/4;m=seg*4;uint32_t q=m;
  size_t n=40+pl+sl;uint8_t*b=malloc(n),*p=b;
  st32(p,1);p+=4;st32(p,ol);p+=4;st32(p,m_kib);p+=4;st32(p,t_cost);p+=4;st32(p,0x13);p+=4;st32(p,type);p+=4;
  st32(p,pl);p+=4;memcpy(p,pw,pl);p+=pl;st32(p,sl);p+=4;memcpy(p,salt,sl);p+=sl;st32(p,0);p+=4;st32(p,0);p+=4;
  uint8_t h0[72];blake2b(h0,64,b,n);free(b);
  Blk*B=malloc(sizeof(Blk)*(size_t)m);if(!B)return -1;uint8_t tb[1024];
  for(uint32_t i=0;i<2;i++){st32(h0+64,i);st32(h0+68,0);hprime(tb,1024,h0,72);for(int j=0;j<128;j++)B[i].w[j]=ld64(tb+8*j);}
  Blk zero;memset(&zero,0,sizeof zero);
  for(uint32_t pass=0;pass<t_cost;pass++)for(uint32_t sl_=0;sl_<4;sl_++){
    int indep=(type==1)||(type==2&&pass==0&&sl_<2);Blk in,ad;
    if(indep){memset(&in,0,sizeof in);in.w[0]=pass;in.w[2]=sl_;in.w[3]=m;in.w[4]=t_cost;in.w[5]=type;
      if(pass==0&&sl_==0){in.w[6]++;fillb(&zero,&in,&ad,0);{Blk t=ad;fillb(&zero,&t,&ad,0);}}}
    for(uint32_t i=(pass==0&&sl_==0)?2:0;i<seg;i++){
      uint32_t cur=sl_*seg+i,prev=cur==0?q-1:cur-1;uint64_t rnd;
      if(indep){if(i%128==0){in.w[6]++;fillb(&zero,&in,&ad,0);{Blk t=ad;fillb(&zero,&t,&ad,0);}}rnd=ad.w[i%128];}
      else rnd=B[prev].w[0];
      uint32_t area;
      if(pass==0)area=sl_==0?i-1:sl_*seg+i-1;else area=q-seg+i-1;
      uint64_t rp=(uint32_t)rnd;rp=rp*rp>>32;rp=area-1-((uint64_t)area*rp>>32);
      uint32_t start=0;if(pass!=0)start=sl_==3?0:(sl_+1)*seg;
      uint32_t ref=(uint32_t)((start+rp)%q);
      fillb(&B[prev],&B[ref],&B[cur],pass!=0);}}
  for(int j=0;j<128;j++)st64(tb+8*j,B[q-1].w[j]);
  hprime(out,ol,tb,1024);free(B);return 0;}
/* ---------------- salsa20 / poly1305 ---------------- */
static inline uint32_t rl(uint32_t x,int n){return (x<<n)|(x>>(32-n));}
static void salsa(const uint8_t k[32],const uint8_t in[16],uint8_t*out,int h){
  static const uint8_t c[]="expand 32-byte k";uint32_t x[16],y[16];
  for(int i=0;i<4;i++){x[5*i]=ld32(c+4*i);x[1+i]=ld32(k+4*i);x[6+i]=ld32(in+4*i);x[11+i]=ld32(k+16+4*i);}
  memcpy(y,x,64);
#define QR(a,b,c,d) x[b]^=rl(x[a]+x[d],7);x[c]^=rl(x[b]+x[a],9);x[d]^=rl(x[c]+x[b],13);x[a]^=rl(x[d]+x[c],18);
  for(int i=0;i<10;i++){QR(0,4,8,12)QR(5,9,13,1)QR(10,14,2,6)QR(15,3,7,11)QR(0,1,2,3)QR(5,6,7,4)QR(10,11,8,9)QR(15,12,13,14)}
  if(h){for(int i=0;i<4;i++){st32(out+4*i,x[5*i]);st32(out+16+4*i,x[6+i]);}}
  else for(int i=0;i<16;i++)st32(out+4*i,x[i]+y[i]);}
void k_hsalsa20(uint8_t*out,const uint8_t*in,const uint8_t*k){salsa(k,in,out,1);}
void k_xsalsa20(uint8_t*out,size_t n,const uint8_t*nonce,const uint8_t*key){
  uint8_t sk[32],in[16],b[64];salsa(key,nonce,sk,1);memcpy(in,nonce+16,8);uint64_t c=0;
  while(n){st64(in+8,c++);salsa(sk,in,b,0);size_t k=n<64?n:64;memcpy(out,b,k);out+=k;n-=k;}}
