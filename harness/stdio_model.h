// stdio functions replaced by the model of the harness
#pragma once
#include <cstdio>
#include <string>
#include <functional>
#define fopen rk_fopen
#define fclose rk_fclose
#define fread rk_fread
#define fseek rk_fseek
#define ftell rk_ftell
#define ferror rk_ferror
extern "C"{ FILE*rk_fopen(const char*,const char*); int rk_fclose(FILE*); size_t rk_fread(void*,size_t,size_t,FILE*); int rk_fseek(FILE*,long,int); long rk_ftell(FILE*); int rk_ferror(FILE*); }
