// running the command line programs of the repository on files and standard streams
#pragma once
#include "rk.h"
#include <fstream>
#include <sstream>
#include <iostream>
#include <string>
#include <vector>
#include <cstdio>
#include <algorithm>
#include <routingkit/vector_io.h>
#ifdef RK_SYMBOLIC
std::vector<RkFile> rk_files;
#endif
typedef std::vector<unsigned> V; typedef std::string Str;
static void put(const Str&n,const Str&d){ std::ofstream o(n,std::ios::binary); if(!d.empty()) o.write(d.data(),d.size()); }
static bool exists(const Str&n){ std::ifstream i(n,std::ios::binary); return (bool)i; }
static Str text(const Str&n){ std::ifstream i(n,std::ios::binary); i.seekg(0,std::ios::end); std::vector<char> d((size_t)i.tellg()); i.seekg(0,std::ios::beg); if(!d.empty()) i.read(d.data(),d.size()); return Str(d.begin(),d.end()); }
static void wipe(const Str&n){
#ifdef RK_SYMBOLIC
	for(size_t i=0;i<rk_files.size();++i) if(rk_files[i].name==n){ rk_files.erase(rk_files.begin()+i); break; }
#else
	std::remove(n.c_str());
#endif
}
static Str tool_out, tool_in;
static int run(int(*tool)(int,char**),const std::vector<Str>&args){
	std::vector<Str> a=args; a.insert(a.begin(),"tool"); std::vector<std::vector<char>> s; for(auto&x:a){ s.push_back(std::vector<char>(x.begin(),x.end())); s.back().push_back(0); } std::vector<char*> p; for(auto&x:s) p.push_back(x.data()); p.push_back(nullptr);
#ifdef RK_SYMBOLIC
	std::vector<char> in(tool_in.begin(),tool_in.end()), out; std::cin.buf=&in; std::cin.pos=0; std::cin.st=0; std::cout.dst=&out; int r=tool((int)a.size(),p.data()); std::cin.buf=nullptr; std::cout.dst=nullptr; tool_out.assign(out.begin(),out.end());
#else
	std::istringstream in(tool_in); std::ostringstream out; std::cin.clear(); std::streambuf*i=std::cin.rdbuf(in.rdbuf()),*o=std::cout.rdbuf(out.rdbuf()); int r=tool((int)a.size(),p.data()); std::cin.rdbuf(i); std::cout.rdbuf(o); tool_out=out.str();
#endif
	return r;
}
static V vec(const Str&n){ return RoutingKit::load_vector<unsigned>(n); }
static bool same(const V&a,const V&b){ if(a.size()!=b.size()) return false; bool r=true; for(unsigned i=0;i<a.size();++i) r=r&(a[i]==b[i]); return r; }
static Str num(unsigned long long v){ Str s; do{ s.insert(s.begin(),(char)('0'+v%10)); v/=10; }while(v); return s; }
