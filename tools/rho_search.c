// rho/d search: gcc -O3 -march=native -pthread s.c -o s ; ./s MODE SECONDS THREADS
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <pthread.h>
#include <time.h>
typedef uint64_t u64;
static const u64 RC[24]={0x0000000000000001,0x0000000000008082,0x800000000000808A,0x8000000080008000,0x000000000000808B,0x0000000080000001,0x8000000080008081,0x8000000000008009,0x000000000000008A,0x0000000000000088,0x0000000080008009,0x000000008000000A,0x000000008000808B,0x800000000000008B,0x8000000000008089,0x8000000000008003,0x8000000000008002,0x8000000000000080,0x000000000000800A,0x800000008000000A,0x8000000080008081,0x8000000000008080,0x0000000080000001,0x8000000080008008};
#define R(x,n) (((x)<<(n))|((x)>>(64-(n))))
static inline void f(u64*s){u64 a[25],b[25],c[5],d[5];memcpy(a,s,200);
static const int rho[25]={0,1,62,28,27,36,44,6,55,20,3,10,43,25,39,41,45,15,21,8,18,2,61,56,14};
for(int r=0;r<24;r++){
for(int x=0;x<5;x++)c[x]=a[x]^a[x+5]^a[x+10]^a[x+15]^a[x+20];
for(int x=0;x<5;x++)d[x]=c[(x+4)%5]^R(c[(x+1)%5],1);
#pragma GCC unroll 25
for(int i=0;i<25;i++){int x=i%5,y=i/5;u64 v=a[i]^d[x];b[y+5*((2*x+3*y)%5)]=rho[i]?R(v,rho[i]):v;}
#pragma GCC unroll 25
for(int i=0;i<25;i++){int x=i%5,y=i/5;a[i]=b[i]^((~b[(x+1)%5+5*y])&b[(x+2)%5+5*y]);}
a[0]^=RC[r];}
memcpy(s,a,200);}
static int mode; static double secs; static time_t t0;
static pthread_mutex_t mu=PTHREAD_MUTEX_INITIALIZER;
// best lists: max total, min total, longest run
static int bmax=330,bmin=300,brun=7;
static void rep(const char*w,int v,const u64*in){pthread_mutex_lock(&mu);printf("%s %d mode%d ",w,v,mode);for(int i=0;i<32;i++)printf("%02x",((unsigned char*)in)[i]);printf("\n");fflush(stdout);pthread_mutex_unlock(&mu);}
static void*th(void*p){u64 id=(u64)p;u64 ctr=0;u64 seed[4]={0x9e3779b97f4a7c15ULL*(id+1)+mode,id,mode,0};
u64 n=0;
for(;;){ if((++n&0xfff)==0 && time(0)-t0>secs)break;
 u64 in[4]={seed[0]+ctr*0xD1342543DE82EF95ULL,seed[1]*0x2545F4914F6CDD1DULL^ctr,seed[2]*7+ (ctr<<7),ctr};ctr++;
 u64 rho[4];memcpy(rho,in,32);
 if(mode==5){u64 s[25]={0};memcpy(s,in,32);((unsigned char*)s)[32]=0x1f;((unsigned char*)s)[167]^=0x80;f(s);memcpy(rho,s,32);}
 if(mode>=2){ // d for k=mode: SHA3-512(d||k), rate 72
  u64 s[25]={0};memcpy(s,rho,32);((unsigned char*)s)[32]=mode==5?3:mode;((unsigned char*)s)[33]=6;((unsigned char*)s)[71]^=0x80;f(s);memcpy(rho,s,32);}
 u64 s[25]={0};memcpy(s,rho,32);((unsigned char*)s)[32]=0;((unsigned char*)s)[33]=0;((unsigned char*)s)[34]=0x1f;((unsigned char*)s)[167]^=0x80;
 int acc=0,tot=0,run=0,mr=0,done=0;
 for(int blk=0;blk<8&&!done;blk++){ f(s); unsigned char*b=(unsigned char*)s;
  for(int i=0;i<168&&!done;i+=3){int d1=b[i]|((b[i+1]&15)<<8),d2=(b[i+1]>>4)|(b[i+2]<<4);
   tot++; if(d1<3329){acc++;run=0;if(acc==256){done=1;break;}}else{run++;if(run>mr)mr=run;}
   tot++; if(d2<3329){acc++;run=0;if(acc==256){done=1;break;}}else{run++;if(run>mr)mr=run;}
  }
  if(blk==0 && acc>83 && acc<99 && mr<7)break; // neither extreme
  if(blk==1 && acc>172 && acc<191 && mr<8)break;
 }
 if(!done)continue;
 if(tot>=bmax){int g=0;pthread_mutex_lock(&mu);if(tot>=bmax){g=1;if(tot>bmax+2)bmax=tot-2;}pthread_mutex_unlock(&mu);if(g)rep("max",tot,in);}
 if(tot<=bmin){int g=0;pthread_mutex_lock(&mu);if(tot<=bmin){g=1;if(tot<bmin-2)bmin=tot+2;}pthread_mutex_unlock(&mu);if(g)rep("min",tot,in);}
 if(mr>=brun){int g=0;pthread_mutex_lock(&mu);if(mr>=brun){g=1;if(mr>brun+1)brun=mr-1;}pthread_mutex_unlock(&mu);if(g)rep("run",mr,in);}
}
fprintf(stderr,"thread %llu: %llu\n",(unsigned long long)id,(unsigned long long)n);return 0;}
int main(int c,char**v){mode=atoi(v[1]);secs=atof(v[2]);int T=atoi(v[3]);t0=time(0);pthread_t t[64];for(long i=0;i<T;i++)pthread_create(&t[i],0,th,(void*)i);for(int i=0;i<T;i++)pthread_join(t[i],0);}
