// operating system calls replaced by the model of the harness (member functions of the same names are renamed alike)
#pragma once
#include <cstdio>
#include <string>
#include <functional>
#include <fstream>
#include <sstream>
#include <vector>
#include <stdexcept>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/types.h>
#define open rk_open
#define close rk_close
#define read rk_read
#define lseek rk_lseek
#define fstat rk_fstat
extern "C"{ int rk_open(const char*,int,...); int rk_close(int); ssize_t rk_read(int,void*,size_t); off_t rk_lseek(int,off_t,int); int rk_fstat(int,struct stat*); }
