#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
static FILE*in; static uint64_t next(int w){ if(!in){in=fopen(getenv("SYMX_IN"),"r"); if(!in){fprintf(stderr,"REPLAY no input\n");exit(90);} } int ww; unsigned long long v; if(fscanf(in,"%d %llx",&ww,&v)!=2){fprintf(stderr,"REPLAY exhausted\n");exit(91);} if(ww!=w){fprintf(stderr,"REPLAY width mismatch\n");exit(92);} return v;}
uint8_t sym_u8(void){return next(8);} uint16_t sym_u16(void){return next(16);} uint32_t sym_u32(void){return next(32);} uint64_t sym_u64(void){return next(64);} _Bool sym_bool(void){return next(1);}
void sym_bytes(uint8_t*p,size_t n){for(size_t i=0;i<n;i++)p[i]=next(8);}
uint32_t sym_choice(uint32_t n){uint32_t v=next(8); if(v>=n){exit(93);} return v;}
void sym_assume(_Bool b){if(!b){printf("ASSUME-FALSE\n");fflush(stdout);exit(94);}}
void sym_assert(_Bool b,const char*m,size_t n){if(!b){printf("ASSERT-FAILED %.*s\n",(int)n,m);fflush(stdout);exit(95);}}
void sym_fail(const char*m,size_t n){printf("ASSERT-FAILED %.*s\n",(int)n,m);fflush(stdout);exit(95);}
void sym_cover(uint32_t k){} 
void sym_observe(uint64_t v){printf("%llx\n",(unsigned long long)v);}
uint64_t sym_concretize(uint64_t v){return v;}
_Bool sym_is_symbolic(uint64_t v){return 0;}
