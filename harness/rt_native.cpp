// Native replay runtime: reads "name[idx] value" lines from the file named by RK_VALUES.
#include "rk.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <fstream>
#include <unistd.h>
static std::map<std::string,uint64_t>&vals(){ static std::map<std::string,uint64_t> m; static bool init=false; if(!init){ init=true; if(const char*f=getenv("RK_VALUES")){ std::ifstream in(f); std::string n; uint64_t v; while(in>>n>>v) m[n]=v; } } return m; }
static uint64_t look(const char*n,uint32_t i,uint64_t lo,uint64_t hi){ auto it=vals().find(std::string(n)+"["+std::to_string(i)+"]"); uint64_t v= it==vals().end()? lo:it->second; if(v<lo||v>hi){ v=lo; } return v; }
extern "C" {
uint32_t rk_sym(const char*n,uint32_t i,uint32_t lo,uint32_t hi){ return look(n,i,lo,hi); }
uint64_t rk_sym64(const char*n,uint32_t i,uint64_t lo,uint64_t hi){ return look(n,i,lo,hi); }
uint8_t rk_sym8(const char*n,uint32_t i,uint32_t lo,uint32_t hi){ return look(n,i,lo,hi); }
uint32_t rk_choose(const char*n,uint32_t i,uint32_t lo,uint32_t hi){ return look(n,i,lo,hi); }
void rk_assume(bool c){ if(!c){ fprintf(stderr,"RK: assumption not satisfied\n"); fflush(stderr); _exit(102); } }
void rk_assert(bool c,const char*l){ if(!c){ fprintf(stderr,"RK: assertion failed: %s\n",l); fflush(stderr); _exit(101); } }
void rk_fail(const char*l){ fprintf(stderr,"RK: assertion failed: %s\n",l); fflush(stderr); _exit(101); }
void rk_reach(const char*){}
uint32_t rk_ite(bool c,uint32_t a,uint32_t b){ return c?a:b; }
uint32_t rk_concretize(uint32_t x){ return x; }
void rk_print(const char*s,uint64_t v){ fprintf(stderr,"[rk] %s %llu\n",s,(unsigned long long)v); }
void RK_MAIN();
}
int main(){ RK_MAIN(); fprintf(stderr,"RK: completed\n"); return 0; }
