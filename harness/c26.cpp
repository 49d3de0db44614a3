// C26: arc lookup, path conversion, two-key sort permutations.
#include "graph.h"
#include <routingkit/graph_util.h>
using namespace RoutingKit;
namespace RoutingKit{ std::vector<unsigned>compute_sort_permutation_first_by_left_then_by_right_and_apply_sort_to_left(unsigned,std::vector<unsigned>&,unsigned,const std::vector<unsigned>&); }
static V out_of(unsigned n,unsigned m){ V fo(1,0); unsigned left=m; for(unsigned x=0;x<n;++x){ unsigned d= x+1==n? left: rk_choose("deg",x,0,left); left-=d; fo.push_back(fo.back()+d); } return fo; }
RK_ENTRY(find){
	unsigned n=rk_choose("n",0,1,3), m=rk_choose("m",0,0,4); V fo=out_of(n,m), head(m), sh(m);
	for(unsigned a=0;a<m;++a){ head[a]=rk_sym("head",a,0,n-1); sh[a]=rk_sym("sorted",a,0,n-1); } for(unsigned x=0;x<n;++x) for(unsigned a=fo[x]+1;a<fo[x+1];++a) rk_assume(sh[a-1]<=sh[a]);
	unsigned x=rk_choose("x",0,0,n-1), y=rk_sym("y",0,0,n-1); bool ex=false, sx=false; for(unsigned a=fo[x];a<fo[x+1];++a){ ex|=head[a]==y; sx|=sh[a]==y; }
	unsigned r=find_arc_or_return_invalid(fo,head,x,y), s=find_arc_or_return_invalid_given_sorted_head(fo,sh,x,y);
	if(r==invalid_id) rk_assert(!ex,"invalid only if there is no such arc"); else { rk_assert(r>=fo[x]&&r<fo[x+1],"found arc leaves the tail"); rk_assert(head[rk_concretize(r)]==y,"found arc enters the head"); rk_assert(find_arc(fo,head,x,y)==r,"find_arc agrees"); rk_reach("found"); }
	if(s==invalid_id) rk_assert(!sx,"invalid only if there is no such arc"); else { rk_assert(s>=fo[x]&&s<fo[x+1],"found arc leaves the tail"); rk_assert(sh[rk_concretize(s)]==y,"found arc enters the head"); rk_assert(find_arc_given_sorted_head(fo,sh,x,y)==s,"find_arc_given_sorted_head agrees"); }
	rk_reach("end");
}
RK_ENTRY(find_large){ // long sorted ranges
	unsigned m=rk_choose("m",0,0,7), n=50; V fo(n+1,m+3), head(m+3); fo[0]=0; fo[1]=2; fo[2]=m+2; head[0]=3; head[1]=9; head[m+2]=1; for(unsigned i=0;i<m;++i){ head[2+i]=rk_sym("h",i,0,n-1); if(i) rk_assume(head[1+i]<=head[2+i]); }
	unsigned y=rk_sym("y",0,0,n-1); bool ex=false; for(unsigned i=0;i<m;++i) ex|=head[2+i]==y; unsigned s=find_arc_or_return_invalid_given_sorted_head(fo,head,1,y), l=find_arc_or_return_invalid(fo,head,1,y);
	rk_assert((s!=invalid_id)==ex&&(l!=invalid_id)==ex,"found iff it exists"); if(ex){ rk_assert(s>=2&&s<m+2&&head[rk_concretize(s)]==y,"found arc is right"); rk_assert(l>=2&&l<m+2&&head[rk_concretize(l)]==y,"found arc is right"); } rk_reach("end");
}
RK_ENTRY(paths){
	unsigned n=3, m=rk_choose("m",0,1,4); V fo=out_of(n,m), head(m), tail(m); for(unsigned x=0;x<n;++x) for(unsigned a=fo[x];a<fo[x+1];++a) tail[a]=x; for(unsigned a=0;a<m;++a) head[a]=rk_choose("head",a,0,n-1);
	unsigned len=rk_choose("len",0,0,3), s=rk_choose("s",0,0,n-1); V arcs,nodes(1,s); unsigned x=s;
	for(unsigned i=0;i<len;++i){ rk_assume(fo[x]<fo[x+1]); unsigned a=rk_choose("step",i,0,3); rk_assume(fo[x]+a<fo[x+1]); a+=fo[x]; arcs.push_back(a); x=head[a]; nodes.push_back(x); }
	V np=convert_arc_path_to_node_path(s,head,arcs); if(len){ rk_assert(np.size()==len+1,"node path has one node more"); for(unsigned i=0;i<=len;++i) rk_assert(np[i]==nodes[i],"node path of an arc path is the same walk"); rk_reach("walk"); } else rk_assert(np.size()<=1,"empty arc path");
	V ap=convert_node_path_to_arc_path(fo,head,nodes); rk_assert(ap.size()==len,"arc path has one arc less"); for(unsigned i=0;i<len;++i) rk_assert(ap[i]<m&&tail[ap[i]]==nodes[i]&&head[ap[i]]==nodes[i+1],"arc path of a node path is the same walk");
	V none; rk_assert(convert_node_path_to_arc_path(fo,head,none).empty(),"empty node path"); rk_reach("end");
}
RK_ENTRY(sort){
	unsigned m=rk_choose("m",0,0,3); static const unsigned C[]={1,2,3,40,64}; unsigned ac=C[rk_choose("ac",0,0,4)], bc=C[rk_choose("bc",0,0,4)]; V a(m),b(m);
	for(unsigned i=0;i<m;++i){ a[i]= ac<4? rk_sym("a",i,0,ac-1): rk_choose("ca",i,0,2)*(ac-1)/2; b[i]= bc<4? rk_sym("b",i,0,bc-1): rk_choose("cb",i,0,2)*(bc-1)/2; }
	unsigned f=rk_choose("f",0,0,3+4*(ac==bc)); V p,la=a; bool inv=false, applied=false;
	switch(f){ case 0: p=compute_sort_permutation_first_by_left_then_by_right(ac,a,bc,b); break; case 1: p=compute_inverse_sort_permutation_first_by_left_then_by_right(ac,a,bc,b); inv=true; break;
		case 2: p=compute_inverse_sort_permutation_first_by_left_then_by_right_and_apply_sort_to_left(ac,la,bc,b); inv=applied=true; break; case 3: p=compute_sort_permutation_first_by_left_then_by_right_and_apply_sort_to_left(ac,la,bc,b); applied=true; break;
		case 4: p=compute_sort_permutation_first_by_tail_then_by_head(ac,a,b); break; case 5: p=compute_inverse_sort_permutation_first_by_tail_then_by_head(ac,a,b); inv=true; break;
		case 6: p=compute_inverse_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail(ac,la,b); inv=applied=true; break; case 7: p=compute_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail(ac,la,b); applied=true; break; }
	rk_assert(p.size()==m,"size"); V q(m,invalid_id); for(unsigned i=0;i<m;++i){ rk_assert(p[i]<m,"permutation entry in range"); p[i]=rk_concretize(p[i]); } if(inv){ for(unsigned i=0;i<m;++i){ rk_assert(q[p[i]]==invalid_id,"is a permutation"); q[p[i]]=i; } } else q=p;
	std::vector<bool> seen(m,false); for(unsigned i=0;i<m;++i){ rk_assert(!seen[q[i]],"is a permutation"); seen[q[i]]=true; }
	for(unsigned i=1;i<m;++i){ rk_assert((a[q[i-1]]<a[q[i]])|((a[q[i-1]]==a[q[i]])&(b[q[i-1]]<=b[q[i]])),"sorted first by left then by right"); }
	for(unsigned i=0;i<m;++i) rk_assert(applied? la[i]==a[q[i]]: la[i]==a[i],"left array is sorted iff requested"); rk_reach("end");
}

RK_ENTRY(big_find){ // long arc ranges, one arbitrary head
	static const unsigned M[]={15,16,17,40,100}; unsigned m=M[rk_choose("m",0,0,4)], n=200, step=rk_choose("step",0,1,2); V fo(n+1,m+4), head(m+4); fo[0]=0; fo[1]=2; fo[2]=m+2; head[0]=3; head[1]=9; head[m+2]=1; head[m+3]=5;
	for(unsigned i=0;i<m;++i) head[2+i]=i*step; unsigned at=rk_choose("at",0,0,2)*(m-1)/2; head[2+at]=rk_sym("h",0,at?head[1+at]:0,at+1<m?head[3+at]:n-1); unsigned y=rk_sym("y",0,0,n-1); unsigned ex=0; for(unsigned i=0;i<m;++i) ex|=head[2+i]==y;
	unsigned s=find_arc_or_return_invalid_given_sorted_head(fo,head,1,y), l=find_arc_or_return_invalid(fo,head,1,y); rk_assert((s!=invalid_id)==(ex!=0)&&(l!=invalid_id)==(ex!=0),"found iff it exists"); if(ex){ rk_assert(s>=2&&s<m+2&&head[rk_concretize(s)]==y,"found arc is right"); rk_assert(l>=2&&l<m+2&&head[rk_concretize(l)]==y,"found arc is right"); } rk_reach("end");
}
RK_ENTRY(big_sort){ // many arcs, two of them arbitrary
	unsigned m= rk_choose("m",0,0,1)?40:150, n= rk_choose("n",0,0,2); n= n==0?7:n==1?30:3000; V a(m),b(m); unsigned r=5; for(unsigned i=0;i<m;++i){ a[i]=rnd(r)%(n<30?n:30); b[i]=rnd(r)%(n<30?n:30); } for(unsigned i=0;i<2;++i){ unsigned k=i*11+3; a[k]=rk_choose("a",i,0,3)*(n-1)/3; b[k]=rk_choose("b",i,0,3)*(n-1)/3; }
	V la=a; unsigned f=rk_choose("f",0,0,3); V p= f==0? compute_sort_permutation_first_by_tail_then_by_head(n,a,b): f==1? compute_inverse_sort_permutation_first_by_tail_then_by_head(n,a,b): f==2? compute_inverse_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail(n,la,b): compute_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail(n,la,b);
	rk_assert(p.size()==m,"size"); V q(m,invalid_id); if(f==1||f==2){ for(unsigned i=0;i<m;++i){ rk_assert(p[i]<m&&q[p[i]]==invalid_id,"is a permutation"); q[p[i]]=i; } } else q=p; std::vector<bool> seen(m,false); for(unsigned i=0;i<m;++i){ rk_assert(q[i]<m&&!seen[q[i]],"is a permutation"); seen[q[i]]=true; }
	for(unsigned i=1;i<m;++i) rk_assert(a[q[i-1]]<a[q[i]]||(a[q[i-1]]==a[q[i]]&&b[q[i-1]]<=b[q[i]]),"sorted first by tail then by head"); for(unsigned i=0;i<m;++i) rk_assert(f>=2? la[i]==a[q[i]]: la[i]==a[i],"left array is sorted iff requested"); rk_reach("end");
}
RK_ENTRY(big_paths){ // long walks in a larger graph
	G g=big_graph(rk_choose("big",0,0,4),0); V fo(1,0), head, tail; for(unsigned x=0;x<g.n;++x){ for(unsigned a=0;a<g.m();++a) if(g.tail[a]==x){ head.push_back(g.head[a]); tail.push_back(x); } fo.push_back(head.size()); }
	unsigned s=rk_choose("s",0,0,3)*(g.n-1)/4, r=rk_choose("seed",0,0,3), x=s; V arcs,nodes(1,s); for(unsigned i=0;i<40&&fo[x]<fo[x+1];++i){ unsigned a=fo[x]+rnd(r)%(fo[x+1]-fo[x]); arcs.push_back(a); x=head[a]; nodes.push_back(x); }
	V np=convert_arc_path_to_node_path(s,head,arcs); if(!arcs.empty()) rk_assert(np==nodes,"node path of an arc path is the same walk"); V ap=convert_node_path_to_arc_path(fo,head,nodes); rk_assert(ap.size()==arcs.size(),"arc path has one arc less"); for(unsigned i=0;i<ap.size();++i) rk_assert(ap[i]<head.size()&&tail[ap[i]]==nodes[i]&&head[ap[i]]==nodes[i+1],"arc path of a node path is the same walk"); rk_reach("end");
}
