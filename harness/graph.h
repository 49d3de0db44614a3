// Symbolic graphs and branch-free reference shortest paths.
#pragma once
#include "rk.h"
#include <routingkit/constants.h>
#include <vector>
#include <string>
typedef std::vector<unsigned> V;
struct G { unsigned n; V tail, head, w; V sym; bool big; G():n(0),big(false){} unsigned m()const{return (unsigned)tail.size();} };
static unsigned plus(unsigned a, unsigned b){ return rk_ite((a<RoutingKit::inf_weight)&(b<RoutingKit::inf_weight), a+b, RoutingKit::inf_weight); }
// big graphs: all weights concrete except those of the arcs in g.sym
static V concrete_dist(const G&g, unsigned s, bool reverse){
	std::vector<bool> issym(g.m(),false); for(unsigned a:g.sym) issym[a]=true;
	V d(g.n,RoutingKit::inf_weight); d[s]=0;
	for(bool again=true;again;){
		again=false;
		for(unsigned a=0;a<g.m();++a){ if(issym[a]||g.w[a]>=RoutingKit::inf_weight) continue; unsigned x = reverse?g.head[a]:g.tail[a], y = reverse?g.tail[a]:g.head[a]; if(d[x]<RoutingKit::inf_weight && d[x]+g.w[a]<d[y]){ d[y]=d[x]+g.w[a]; again=true; } }
	}
	return d;
}
static V ref_big(const G&g, const V&init, bool reverse){
	unsigned k=(unsigned)g.sym.size(); V d(g.n,RoutingKit::inf_weight);
	for(unsigned x=0;x<g.n;++x) if(init[x]!=RoutingKit::inf_weight){ V r=concrete_dist(g,x,reverse); for(unsigned y=0;y<g.n;++y) d[y]=rk_min(d[y],plus(init[x],r[y])); }
	std::vector<V> row; for(unsigned i=0;i<k;++i) row.push_back(concrete_dist(g, reverse?g.tail[g.sym[i]]:g.head[g.sym[i]], reverse));
	V e(k); for(unsigned i=0;i<k;++i) e[i]=d[reverse?g.head[g.sym[i]]:g.tail[g.sym[i]]]; // distance to the start of the arc
	for(unsigned r=1;r<k;++r){ V ne=e; for(unsigned i=0;i<k;++i) for(unsigned j=0;j<k;++j) if(i!=j) ne[i]=rk_min(ne[i],plus(plus(e[j],g.w[g.sym[j]]),row[j][reverse?g.head[g.sym[i]]:g.tail[g.sym[i]]])); e=ne; }
	for(unsigned j=0;j<k;++j) for(unsigned y=0;y<g.n;++y) if(row[j][y]!=RoutingKit::inf_weight) d[y]=rk_min(d[y],plus(plus(e[j],g.w[g.sym[j]]),row[j][y]));
	return d;
}
// reference: Bellman-Ford without branches on weights. An arc of weight inf_weight is closed.
static V ref_from(const G&g, const V&init, bool reverse=false){
	if(g.big) return ref_big(g,init,reverse);
	V d = init;
	for(unsigned r=1;r<g.n;++r){
		V nd = d;
		for(unsigned a=0;a<g.m();++a){
			unsigned x = reverse?g.head[a]:g.tail[a], y = reverse?g.tail[a]:g.head[a];
			if(x==y) continue;
			unsigned s = rk_ite((d[x]<RoutingKit::inf_weight)&(g.w[a]<RoutingKit::inf_weight), d[x]+g.w[a], RoutingKit::inf_weight);
			nd[y] = rk_min(nd[y], s);
		}
		d = nd;
	}
	return d;
}
static V ref_dist(const G&g, unsigned s, bool reverse=false){ V i(g.n, RoutingKit::inf_weight); i[s]=0; return ref_from(g,i,reverse); }
// any graph with n nodes and m arcs (arc ends chosen, so parallel arcs and loops are included)
static G any_graph(unsigned n, unsigned m, unsigned wmax, unsigned wmin=0){
	G g; g.n=n;
	for(unsigned i=0;i<m;++i){
		unsigned e = rk_choose("arc",i,0,n*n-1);
		g.tail.push_back(e/n); g.head.push_back(e%n);
		g.w.push_back(rk_sym("w",i,wmin,wmax));
	}
	return g;
}
// arcs given as "ab cd" pairs of letters; weights symbolic
static G topo(unsigned n, const char*s, unsigned wmax, unsigned wmin=0){
	G g; g.n=n; unsigned i=0;
	for(const char*p=s; *p; ++p){ if(*p==' ') continue; g.tail.push_back(p[0]-'a'); g.head.push_back(p[1]-'a'); ++p; g.w.push_back(rk_sym("w",i++,wmin,wmax)); }
	return g;
}
static const struct { unsigned n; const char*s; } TOPO[] = {
	{4,"ab ba bc cb cd dc"},                 // 0 path, both directions
	{4,"ab bc cd da"},                       // 1 directed cycle
	{4,"ab ac bd cd"},                       // 2 diamond
	{4,"ab ab bc cd bd aa"},                 // 3 parallel arcs, shortcut, loop
	{5,"ab bc cd de ae be"},                 // 4 chain with bypasses
	{5,"ca cb ac bc cd dc ce"},              // 5 star
	{5,"ab bc ca cd de ec"},                 // 6 two cycles sharing a node
	{4,"ab bc ac cd bd ad"},                 // 7 acyclic tournament
	{6,"ab bc cd de ef"},                    // 8 long chain
	{6,"ab ba cd dc ef"},                    // 9 disconnected
	{5,"ea ab bc cd db ae"},                 // 10 cycle with tail
	{4,"ba ab bc cb ac ca bd"},              // 11 bidirected triangle plus exit
	{6,"ab bc cd ad de ef cf"},              // 12 ladder
	{3,"ab ab ab ba ba ba bc"},              // 13 three parallel arcs in both directions
};
static const unsigned TOPO_COUNT = sizeof(TOPO)/sizeof(TOPO[0]);
static G some_topo(unsigned wmax, unsigned lo, unsigned hi, unsigned wmin=0){ unsigned t = rk_choose("topo",0,lo,hi); return topo(TOPO[t].n, TOPO[t].s, wmax, wmin); }
// larger graphs with concrete pseudo-random weights and SYMS symbolic ones
#ifndef SYMS
#define SYMS 2
#endif
#ifndef BIGSCALE
#define BIGSCALE 1
#endif
static const unsigned BIG_COUNT = 6;
static unsigned rnd(unsigned&x){ x = x*1664525u+1013904223u; return x>>16; }
static G big_graph(unsigned kind, unsigned wmax){
	G g; g.big=true; unsigned r=kind*77+5;
	auto arc=[&](unsigned x, unsigned y, unsigned lo, unsigned hi){ g.tail.push_back(x); g.head.push_back(y); g.w.push_back((lo+rnd(r)%(hi-lo+1))*BIGSCALE); };
	if(kind==0){ g.n=25; for(unsigned y=0;y<5;++y) for(unsigned x=0;x<5;++x){ unsigned v=5*y+x; if(x<4){ arc(v,v+1,1,9); arc(v+1,v,1,9); } if(y<4){ arc(v,v+5,1,9); arc(v+5,v,1,9); } } arc(12,12,1,3); arc(6,7,1,9); arc(7,6,0,9); } // grid, parallel arcs, loop
	else if(kind==1){ g.n=24; for(unsigned i=0;i<64;++i) arc(rnd(r)%24,rnd(r)%24,0,12); } // sparse random digraph
	else if(kind==2){ g.n=37; for(unsigned i=1;i<g.n;++i){ arc(0,i,1,9); arc(i,0,1,9); if(i%3) arc(i,i+1<g.n?i+1:1,1,5); } } // wheel: node of high degree
	else if(kind==3){ g.n=70; for(unsigned i=0;i+1<g.n;++i){ arc(i,i+1,1,4); if(i%7==0&&i+9<g.n){ arc(i,i+9,10,30); arc(i+5,i,2,5); } } } // long chain with bypasses
	else if(kind==4){ g.n=27; for(unsigned y=0;y<4;++y) for(unsigned x=0;x<4;++x){ unsigned v=4*y+x; if(x<3) arc(v,v+1,1,9); if(y<3) arc(v+4,v,1,9); arc(v,(v*5+3)%16,3,12); } for(unsigned i=0;i<10;++i) arc(16+i,16+(i+1)%10,1,6); arc(5,16,1,9); arc(26,3,1,1); } // two parts joined one way
	else if(kind==6){ g.n=144; for(unsigned y=0;y<12;++y) for(unsigned x=0;x<12;++x){ unsigned v=12*y+x; if(x<11){ arc(v,v+1,1,20); if((x+y)%5) arc(v+1,v,1,20); } if(y<11){ if((x*y)%7!=3) arc(v,v+12,1,20); arc(v+12,v,1,20); } } for(unsigned i=0;i<12;++i) arc(rnd(r)%144,rnd(r)%144,15,60); } // larger grid with some one-way streets and bridges
	else if(kind==7){ g.n=200; for(unsigned i=0;i<520;++i){ unsigned x=rnd(r)%200; arc(x,i%3?(x+1+rnd(r)%9)%200:rnd(r)%200,0,30); } for(unsigned i=0;i<30;++i){ arc(77,(i*7+3)%200,20,60); arc((i*11+5)%200,77,20,60); } } // larger random graph with a hub
	else { g.n=12; for(unsigned x=0;x<12;++x) for(unsigned y=0;y<12;++y) if(x!=y) arc(x,y,5,40); } // dense
	unsigned step=g.m()/(SYMS+1);
	for(unsigned i=0;i<SYMS;++i){ unsigned a=(i+1)*step+(i*i)%3; g.sym.push_back(a); g.w[a]=rk_sym("w",i,0,wmax)*BIGSCALE; }
	return g;
}
static V big_perm(unsigned n, unsigned k){ V p(n); for(unsigned i=0;i<n;++i) p[i]=i; unsigned r=k*91+n; for(unsigned i=n-1;i>0;--i){ unsigned j=rnd(r)%(i+1); unsigned t=p[i]; p[i]=p[j]; p[j]=t; } return p; }
// some nodes of a big graph, every node of a small one
#ifndef PICKS
#define PICKS 3
#endif
static unsigned pick(const G&g, const char*name, unsigned i){
	if(!g.big) return rk_choose(name,i,0,g.n-1);
	unsigned k=rk_choose(name,i,0,PICKS-1), r=k*131+g.n; return k==0?0:k==1?g.n-1:rnd(r)%g.n;
}
static V any_perm(unsigned n, const char*name="perm"){
	V p(n); std::vector<bool> used(n,false);
	for(unsigned i=0;i<n;++i){
		unsigned k = rk_choose(name,i,0,n-1-i); unsigned x=0;
		for(;;++x) if(!used[x]){ if(k==0) break; --k; }
		used[x]=true; p[i]=x;
	}
	return p;
}
static V some_perm(unsigned n, unsigned k){ // k-th of a few fixed permutations
	V p(n);
	for(unsigned i=0;i<n;++i) switch(k){ case 0: p[i]=i; break; case 1: p[i]=n-1-i; break; case 2: p[i]=(i%2)? (n-1-i/2): i/2; break; case 3: p[i]=(i+n/2)%n; break; default: p[i]=(i%2==0)? (n%2==0? n-2-i: n-1-i) : (i); }
	return p;
}
// is the arc path a walk from s to t; returns its length (saturated)
static unsigned walk_length(const G&g, unsigned s, unsigned t, const V&arcs, const char*l){
	unsigned x=s, len=0;
	for(unsigned i=0;i<arcs.size();++i){
		rk_assert(arcs[i] < g.m(), l);
		unsigned a = rk_concretize(arcs[i]);
		rk_assert(g.tail[a]==x, l);
		x = g.head[a]; len += g.w[a];
	}
	rk_assert(x==t, l);
	return len;
}
