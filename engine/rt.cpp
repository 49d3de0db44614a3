// Bodies of the parts of libstdc++ that live in the shared library, as bitcode for the symbolic executor.
#include <string>
#include <map>
#include <set>
#include <list>
#include <unordered_map>
#include <stdexcept>
#include <cmath>
template class std::basic_string<char>;
namespace std {
// red-black tree (only the interface matters: order and iteration; colours are kept black, tree unbalanced)
static _Rb_tree_node_base* inc(_Rb_tree_node_base*x){
	if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; }
	else { _Rb_tree_node_base*y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; }
	return x; }
static _Rb_tree_node_base* dec(_Rb_tree_node_base*x){
	if(x->_M_color==_S_red && x->_M_parent->_M_parent==x) x=x->_M_right;
	else if(x->_M_left){ _Rb_tree_node_base*y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; }
	else { _Rb_tree_node_base*y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; }
	return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base*x)throw(){ return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base*x)throw(){ return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base*x)throw(){ return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base*x)throw(){ return dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left,_Rb_tree_node_base*x,_Rb_tree_node_base*p,_Rb_tree_node_base&h)throw(){
	x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_black;
	if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; }
	else { p->_M_right=x; if(p==h._M_right) h._M_right=x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base*const z,_Rb_tree_node_base&h)throw(){
	_Rb_tree_node_base*&root=h._M_parent; _Rb_tree_node_base*p=z->_M_parent,*r;
	if(z==h._M_left){ if(z->_M_right){ _Rb_tree_node_base*y=z->_M_right; while(y->_M_left) y=y->_M_left; h._M_left=y; } else h._M_left=p; }
	if(z==h._M_right){ if(z->_M_left){ _Rb_tree_node_base*y=z->_M_left; while(y->_M_right) y=y->_M_right; h._M_right=y; } else h._M_right=p; }
	if(!z->_M_left) r=z->_M_right; else if(!z->_M_right) r=z->_M_left;
	else { _Rb_tree_node_base*y=z->_M_right; while(y->_M_left) y=y->_M_left;
		if(y->_M_parent!=z){ y->_M_parent->_M_left=y->_M_right; if(y->_M_right) y->_M_right->_M_parent=y->_M_parent; y->_M_right=z->_M_right; y->_M_right->_M_parent=y; }
		y->_M_left=z->_M_left; y->_M_left->_M_parent=y; r=y; }
	if(r) r->_M_parent=p;
	if(z==root) root=r; else if(p->_M_left==z) p->_M_left=r; else p->_M_right=r;
	return z; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base*const p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base*n=_M_next,*p=_M_prev; p->_M_next=n; n->_M_prev=p; }
void _List_node_base::_M_transfer(_List_node_base*const f,_List_node_base*const l) noexcept { if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; _List_node_base*const t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base*t=this; do { _List_node_base*x=t->_M_next; t->_M_next=t->_M_prev; t->_M_prev=x; t=x; } while(t!=this); }
static const std::size_t PR[]={2,5,11,23,47,97,199,409,823,1741,3469,6949,14033,28411,57557,116731,236897};
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { for(unsigned i=0;i<17;++i) if(PR[i]>=n){ _M_next_resize=PR[i]; return PR[i]; } return n|1; }
std::pair<bool,std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb,std::size_t ne,std::size_t ni) const { if(ne+ni>_M_next_resize||nb<2){ std::size_t w=ne+ni; if(w<2*nb&&nb>1) w=2*nb; if(w<11) w=11; std::size_t k=_M_next_bkt(w); if(k>nb) return std::make_pair(true,k); } return std::make_pair(false,std::size_t(0)); }
}
size_t _Hash_bytes(const void*p,size_t n,size_t seed){ const unsigned char*c=(const unsigned char*)p; size_t h=seed^14695981039346656037ull; for(size_t i=0;i<n;++i){ h^=c[i]; h*=1099511628211ull; } return h; }
}

// virtual functions of the standard exceptions
extern "C" { static const char*rk_exc_what(const void*){ return "exception"; } static void rk_exc_destroy(void*){} extern void*const rk_exc_vtable[6]; void*const rk_exc_vtable[6]={0,0,(void*)rk_exc_destroy,(void*)rk_exc_destroy,(void*)rk_exc_what,0}; }
