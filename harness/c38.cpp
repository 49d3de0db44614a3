// C38: the validity checks of the command line programs accept exactly the valid inputs.
#include "rk.h"
#include <vector>
#include <stdexcept>
#include "verify.h"
using namespace RoutingKit; typedef std::vector<unsigned> V;
#ifndef NS
#define NS 4
#endif
static V arb(const char*n,unsigned lo,unsigned hi){ unsigned s=rk_choose(n,100,lo,hi); V v(s); for(unsigned i=0;i<s;++i) v[i]=rk_sym(n,i,0,0xffffffffu); return v; }
template<class F> static bool ok(F f){ try{ f(); }catch(std::exception&){ return false; } return true; }
static bool graph(const V&fo,const V&head){ if(fo.empty()) return false; bool r=(fo[0]==0)&(fo[fo.size()-1]==head.size()); for(unsigned i=1;i<fo.size();++i) r=r&(fo[i-1]<=fo[i]); for(unsigned i=0;i<head.size();++i) r=r&(head[i]<fo.size()-1); return r; }
// index arrays are symbolic: position p belongs to the same arc as p-1 iff no entry of the index equals p
static bool ipp(unsigned period,const V&f,const V&d,const V&t){ if(f.empty()) return false; bool r=(f[0]==0)&(f[f.size()-1]==d.size())&(t.size()==d.size()); for(unsigned i=1;i<f.size();++i) r=r&(f[i-1]<f[i]); for(unsigned i=0;i<d.size();++i) r=r&(d[i]<period);
	for(unsigned p=1;p<d.size();++p){ bool start=false; for(unsigned i=0;i<f.size();++i) start=start|(f[i]==p); r=r&(start|(d[p-1]<=d[p])); } return r; }
RK_ENTRY(plain){ V fo=arb("first_out",0,NS+1), head=arb("head",0,NS); bool v=graph(fo,head); bool a=ok([&]{ check_if_graph_is_valid(fo,head); }); rk_assert(a==v,"a graph is accepted iff it is valid"); if(a) rk_reach("accepted"); else rk_reach("rejected"); rk_reach("end"); }
RK_ENTRY(points){ V f=arb("first",0,3), d=arb("dep",0,3), t=arb("tt",0,3); unsigned p=rk_sym("period",0,0,0xffffffffu); bool v=ipp(p,f,d,t); bool a=ok([&]{ check_if_arc_ipp_are_valid(p,f,d,t); }); rk_assert(a==v,"interpolation points are accepted iff they are valid"); if(a) rk_reach("accepted"); else rk_reach("rejected"); rk_reach("end"); }
RK_ENTRY(timed){ V fo=arb("first_out",0,3), head=arb("head",0,2), f=arb("first",0,3), d=arb("dep",0,2), t=arb("tt",0,2); unsigned p=rk_sym("period",0,0,0xffffffffu); bool v=graph(fo,head)&ipp(p,f,d,t)&(f.size()==head.size()+1); bool a=ok([&]{ check_if_td_graph_is_valid(p,fo,head,f,d,t); }); rk_assert(a==v,"a time-dependent graph is accepted iff it is valid"); if(a) rk_reach("accepted"); else rk_reach("rejected"); rk_reach("end"); }
RK_ENTRY(queries){ V s=arb("s",0,2), t=arb("t",0,2), u=arb("u",0,2), r=arb("r",0,2); unsigned p=rk_sym("period",0,0,0xffffffffu), n=rk_sym("n",0,0,0xffffffffu); bool v=(s.size()==t.size())&(s.size()==u.size())&(s.size()==r.size()); for(unsigned x:s) v=v&(x<n); for(unsigned x:t) v=v&(x<n); for(unsigned x:u) v=v&(x<p);
	bool a=ok([&]{ check_if_sst_queries_are_valid(p,n,s,u,t,r); }); rk_assert(a==v,"queries are accepted iff they are valid"); if(a) rk_reach("accepted"); else rk_reach("rejected"); rk_reach("end"); }
