// More than 65536 nodes, arcs, ids, elements: sizes at which narrow integers would overflow. Mostly fixed contents, the last parts arbitrary.
#include "graph.h"
#include <routingkit/contraction_hierarchy.h>
#include <routingkit/customizable_contraction_hierarchy.h>
#include <routingkit/dijkstra.h>
#include <routingkit/inverse_vector.h>
#include <routingkit/id_queue.h>
#include <routingkit/id_set_queue.h>
#include <routingkit/id_mapper.h>
#include <routingkit/bit_vector.h>
#include <routingkit/sort.h>
#include <routingkit/permutation.h>
#include <routingkit/graph_util.h>
#include <routingkit/strongly_connected_component.h>
#include <routingkit/timestamp_flag.h>
using namespace RoutingKit;
#ifndef COPIES
#define COPIES 16500
#endif
// copies of a gadget of 4 nodes; the weights of the last one are arbitrary. Nodes of the gadget: base..base+3
struct H { V tail, head, w; unsigned n, base, arc; G last; };
static H many(){
	static const unsigned T[]={0,0,1,2,3}, D[]={1,2,2,3,0}; H h; h.n=4*COPIES; h.base=h.n-4; h.arc=5*(COPIES-1); h.last.n=4;
	for(unsigned c=0;c<COPIES;++c) for(unsigned i=0;i<5;++i){ h.tail.push_back(4*c+T[i]); h.head.push_back(4*c+D[i]); h.w.push_back(c+1<COPIES?1+i:rk_sym("w",i,0,7)); }
	for(unsigned i=0;i<5;++i){ h.last.tail.push_back(T[i]); h.last.head.push_back(D[i]); h.last.w.push_back(h.w[h.arc+i]); }
	return h;
}
template<class Q> static void ask(const H&h, Q&q){
	unsigned s=rk_choose("s",0,0,3), t=rk_choose("t",0,0,3); V d=ref_dist(h.last,s);
	q.reset(); q.add_source(h.base+s); q.add_target(h.base+t); q.run(); rk_assert(q.get_distance()==d[t],"distance is the shortest-path distance");
	V a=q.get_arc_path(), p=q.get_node_path(); unsigned x=h.base+s, len=0; rk_assert(p.size()==a.size()+1&&p[0]==x,"the node path starts at the source");
	for(unsigned i=0;i<a.size();++i){ unsigned e=rk_concretize(a[i]); rk_assert(e<h.tail.size()&&h.tail[e]==x,"the arc path is connected"); x=h.head[e]; len+=h.w[e]; rk_assert(p[i+1]==x,"the node path follows the arc path"); }
	rk_assert(x==h.base+t&&len==d[t],"the path ends at the target and is as long as reported");
	q.reset(); q.add_source(h.base+s).add_target(1); q.run(); rk_assert(q.get_distance()==inf_weight&&q.get_arc_path().empty()&&q.get_node_path().empty(),"no path between different parts");
	q.reset(); V tl; for(unsigned i=0;i<4;++i) tl.push_back(h.base+i); tl.push_back(0); q.pin_targets(tl); q.reset_source(); q.add_source(h.base+s); q.run_to_pinned_targets(); V r=q.get_distances_to_targets(); for(unsigned i=0;i<4;++i) rk_assert(r[i]==d[i],"pinned distances are exact"); rk_assert(r[4]==inf_weight,"no path between different parts");
}
#ifdef E_ch
RK_ENTRY(ch){ H h=many(); V rank(h.n); for(unsigned i=0;i<h.n;++i) rank[i]=h.n-1-i; ContractionHierarchy c= rk_choose("how",0,0,1)? ContractionHierarchy::build(h.n,h.tail,h.head,h.w): ContractionHierarchy::build_given_rank(rank,h.tail,h.head,h.w); ContractionHierarchyQuery q(c); ask(h,q); rk_reach("end"); }
#endif
#ifdef E_cch
RK_ENTRY(cch){ H h=many(); V order(h.n); for(unsigned i=0;i<h.n;++i) order[i]=h.n-1-i; CustomizableContractionHierarchy c(order,h.tail,h.head); CustomizableContractionHierarchyMetric m(c,h.w); m.customize(); CustomizableContractionHierarchyQuery q(m); ask(h,q); rk_reach("end"); }
#endif
#ifdef E_partial
RK_ENTRY(partial){ H h=many(); V order(h.n); for(unsigned i=0;i<h.n;++i) order[i]=h.n-1-i; CustomizableContractionHierarchy c(order,h.tail,h.head); V old=h.w; for(unsigned i=0;i<5;++i) old[h.arc+i]=3; CustomizableContractionHierarchyMetric m(c,old); m.customize(); CustomizableContractionHierarchyPartialCustomization p(c); m.reset(h.w); for(unsigned i=0;i<5;++i) p.update_arc(h.arc+i); p.customize(m); CustomizableContractionHierarchyQuery q(m); ask(h,q); rk_reach("end"); }
#endif
#ifdef E_dijkstra
RK_ENTRY(dijkstra){
	H h=many(); V fo=invert_vector(h.tail,h.n); Dijkstra d(fo,h.tail,h.head); unsigned s=rk_choose("s",0,0,3); V r=ref_dist(h.last,s); d.add_source(h.base+s); ScalarGetWeight gw(h.w); unsigned k=0; while(!d.is_finished()){ d.settle(gw); rk_assert(++k<=4,"every node is settled once"); }
	for(unsigned t=0;t<4;++t){ rk_assert(d.get_distance_to(h.base+t)==r[t],"final distance is the shortest distance"); V p=d.get_node_path_to(h.base+t), a=d.get_arc_path_to(h.base+t); rk_assert(p.size()==a.size()+1&&p[0]==h.base+s&&p.back()==h.base+t,"path from source to node"); unsigned len=0; for(unsigned i=0;i<a.size();++i){ unsigned e=rk_concretize(a[i]); rk_assert(e<h.tail.size()&&h.tail[e]==p[i]&&h.head[e]==p[i+1],"path uses arcs"); len+=h.w[e]; } rk_assert(len==r[t],"path has the shortest length"); }
	rk_assert(!d.was_node_reached(0)&&!d.was_node_reached(h.base-65536),"other parts are not reached"); rk_reach("end");
}
#endif
#ifdef E_queue
RK_ENTRY(queue){
	unsigned n=66100; MinIDQueue q(n); for(unsigned i=0;i<n;++i) q.push({n-1-i, (i*7919u)%n*4}); rk_assert(q.size()==n,"size"); unsigned k=rk_sym("key",0,0,600); unsigned id=n-1-rk_choose("id",0,0,2)*33000; 
	unsigned old=q.get_key(id); rk_assert(old==((n-1-id)*7919u)%n*4,"key kept"); rk_assert(q.decrease_key({id,k})==(k<old),"decrease_key returns whether the key became smaller"); unsigned cur=rk_min(k,old);
	unsigned last=0; bool seen=false; for(unsigned i=0;i<200;++i){ IDKeyPair p=q.pop(); rk_assert(p.key>=last,"popped in order"); last=p.key; unsigned x=rk_concretize(p.id); rk_assert(x<n&&p.key==(x==id?cur:((n-1-x)*7919u)%n*4),"an element has its key"); if(x==id) seen=true; }
	rk_assert(seen||cur>=last,"smaller elements come first"); rk_assert(q.size()==n-200,"size"); rk_reach("end");
}
#endif
#ifdef E_idset
RK_ENTRY(idset){
	unsigned n=66100+rk_choose("n",0,0,1)*65000; IDSetMinQueue q(n); unsigned a=rk_choose("a",0,0,5), A[]={65535,65536,65537,n-1,1,66000}, x=A[a]; q.push(66050); q.push(x); q.push(n-2); q.push(65600); q.push(x);
	V e={66050,x,n-2,65600}; std::sort(e.begin(),e.end()); for(unsigned v:e){ rk_assert(q.contains(v),"contains"); } for(unsigned v:e){ rk_assert(!q.empty()&&q.peek()==v&&q.pop()==v,"popped in order"); rk_assert(!q.contains(v),"popped ids are gone"); } rk_assert(q.empty(),"empty"); rk_reach("end");
}
#endif
#ifdef E_sort
RK_ENTRY(sort){
	unsigned n=66100, keys=rk_choose("keys",0,0,2); keys= keys==0?3: keys==1?70000:1000000; V v(n); for(unsigned i=0;i<n;++i) v[i]=(i*7919u)%n%keys; auto id=[](unsigned x){return x;};
	V s=stable_sort_using_key(v,keys,id), p=compute_stable_sort_permutation_using_key(v,keys,id), ip=compute_inverse_stable_sort_permutation_using_key(v,keys,id); bool ok=s.size()==n&&p.size()==n&&ip.size()==n; V cnt(keys,0); for(unsigned i=0;i<n;++i) ++cnt[v[i]]; unsigned k=0; for(unsigned i=0;i<n;++i){ while(cnt[k]==0) ++k; --cnt[k]; ok&=s[i]==k; ok&=p[i]<n&&v[p[i]]==k&&ip[p[i]]==i; if(i) ok&=v[p[i-1]]<v[p[i]]||p[i-1]<p[i]; }
	rk_assert(ok,"long vectors are sorted stably"); rk_assert(is_sorted_using_key(s,keys,id)&&!is_sorted_using_key(v,keys,id),"sortedness is recognised"); rk_reach("end");
}
#endif
#ifdef E_perm
RK_ENTRY(perm){
	unsigned n=70000; V p(n); for(unsigned i=0;i<n;++i) p[i]=(i+33333)%n; rk_assert(is_permutation(p),"a permutation is recognised"); V q=invert_permutation(p); bool ok=q.size()==n; for(unsigned i=0;i<n;++i) ok&=q[p[i]]==i; V c=chain_permutation_first_left_then_right(p,q); V v(n); for(unsigned i=0;i<n;++i){ ok&=c[i]==i; v[i]=3*i; } V a=apply_permutation(p,v), b=apply_inverse_permutation(p,v); for(unsigned i=0;i<n;++i) ok&=a[i]==3*p[i]&&b[p[i]]==3*i; rk_assert(ok,"permutation algebra");
	unsigned at=rk_choose("at",0,0,2)*34000, old=p[at]; static const unsigned E[]={0,65535,65536,69999,70000,131072,~0u}; p[at]=rk_choose("entry",0,0,7)==7?old:E[rk_choose("entry",0,0,7)%7]; rk_assert(is_permutation(p)==(p[at]==old),"a permutation is recognised exactly");
	V s(n); for(unsigned i=0;i<n;++i) s[i]=i+(i>100); V f=invert_vector(s,n+1), t=invert_inverse_vector(f); rk_assert(f.size()==n+2&&t==s,"inverse index and back"); ok=true; for(unsigned i=0;i<=n;++i) ok&=f[i]==(i<=101?i:i-1)&&(i!=101||f[102]==101); rk_assert(ok,"inverse index brackets positions"); rk_reach("end");
}
#endif
#ifdef E_mapper
RK_ENTRY(mapper){
	uint64_t n=140000; BitVector b(n,BitVector::uninitialized); for(uint64_t i=0;i<n;++i) b.set(i,i%513!=7); b.set(139990,rk_choose("bit",0,0,1)); uint64_t x=rk_choose("x",0,0,1)?139999:131072; 
	IDMapper m(b); LocalIDMapper l(b); uint64_t c=0; for(uint64_t i=0;i<n;++i){ bool s=b.is_set(i); if(i%97==0||i+100>n){ rk_assert(m.is_global_id_mapped(i)==s,"is mapped"); rk_assert(m.to_local(i,~0ull)==(s?c:~0ull)&&l.to_local(i,~0ull)==(s?c:~0ull),"local id is the number of marked ids before"); if(s) rk_assert(m.to_global(c)==i,"mapping back"); } c+=s; }
	rk_assert(m.local_id_count()==c&&l.local_id_count()==c&&b.population_count()==c,"counts"); rk_assert(m.to_global(m.to_local(x))==x,"mapping back"); rk_reach("end");
}
#endif
#ifdef E_scc
RK_ENTRY(scc){
	unsigned n=66100; V tail,head; for(unsigned i=0;i<n;++i){ tail.push_back(i); head.push_back((i+1)%n); } unsigned cut=rk_choose("cut",0,0,3), C[]={0,65535,65536,66099}; if(cut) head[C[cut]]=C[cut]; V fo=invert_vector(tail,n); StronlyConnectedComponentsResult R=compute_strongly_connected_components(fo,head); V c=R.component_of; rk_assert(R.component_count==(cut?n:1),"component count"); rk_assert(c.size()==n,"size"); bool ok=true; 
	if(!cut) for(unsigned i=0;i<n;++i) ok&=c[i]==0; else for(unsigned i=0;i<n;++i) ok&=c[(C[cut]+n-i)%n]==i; // a path that ends in C[cut]
	rk_assert(ok,"components of a long cycle or path in reverse topological order");
	std::vector<bool> l=compute_largest_strongly_connected_component(fo,head); unsigned k=0; for(unsigned i=0;i<n;++i) k+=l[i]; rk_assert(k==(cut?1:n),"largest component"); rk_reach("end");
}
#endif
#ifdef E_find
RK_ENTRY(find){
	unsigned n=70000; V tail,head; for(unsigned i=0;i<n;++i){ tail.push_back(0); head.push_back(i==69000?68999:i); } V fo=invert_vector(tail,n); unsigned y=rk_choose("y",0,0,4), Y[]={0,65536,68999,69000,69999}; unsigned a=find_arc_or_return_invalid(fo,head,0,Y[y]); 
	rk_assert(y==3? a==invalid_id: a<n&&head[a]==Y[y],"arc lookup");
	V t2(n),h2(n); for(unsigned i=0;i<n;++i){ t2[i]=(i*7919u)%n; h2[i]=(i*104729u)%n; } V p=compute_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail(n,t2,h2); bool ok=p.size()==n; for(unsigned i=0;i<n;++i) ok&=t2[i]==i&&(p[i]*7919u)%n==i; rk_assert(ok,"arcs sorted by tail"); rk_reach("end");
}
#endif
#ifdef E_flags
RK_ENTRY(flags){
	unsigned n=70000; TimestampFlags f(n); static const unsigned X[]={0,4464,65535,65536,69999}; unsigned x=X[rk_choose("x",0,0,4)]; f.set(x); bool ok=true; for(unsigned i=0;i<n;++i) ok&=f.is_set(i)==(i==x); rk_assert(ok,"only the flag that was set"); f.reset_all(); ok=true; for(unsigned i=0;i<n;++i) ok&=!f.is_set(i); rk_assert(ok,"all reset"); rk_reach("end");
}
#endif
