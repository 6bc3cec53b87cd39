// libstdc++ / libc pieces that exist only as machine code in shared libraries, re-stated so that the engine can
// execute them on symbolic memory.  Compiled with -fno-builtin.
#include <cstddef>
#include <cstdint>
#include <new>
#include <bits/stl_tree.h>
#include <bits/stl_list.h>
#include <unordered_map>
#include <stdexcept>
#include <functional>
namespace std {
typedef _Rb_tree_node_base* NP; typedef const _Rb_tree_node_base* CNP;
static NP inc(NP x){ if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; return x; } NP y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; return x; }
static NP dec(NP x){ if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x) return x->_M_right; if(x->_M_left){ NP y=x->_M_left; while(y->_M_right) y=y->_M_right; return y; } NP y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } return y; }
NP _Rb_tree_increment(NP x) throw(){ return inc(x); }
CNP _Rb_tree_increment(CNP x) throw(){ return inc(const_cast<NP>(x)); }
NP _Rb_tree_decrement(NP x) throw(){ return dec(x); }
CNP _Rb_tree_decrement(CNP x) throw(){ return dec(const_cast<NP>(x)); }
static void rotL(NP x,NP& root){ NP y=x->_M_right; x->_M_right=y->_M_left; if(y->_M_left) y->_M_left->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_left) x->_M_parent->_M_left=y; else x->_M_parent->_M_right=y; y->_M_left=x; x->_M_parent=y; }
static void rotR(NP x,NP& root){ NP y=x->_M_left; x->_M_left=y->_M_right; if(y->_M_right) y->_M_right->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_right) x->_M_parent->_M_right=y; else x->_M_parent->_M_left=y; y->_M_right=x; x->_M_parent=y; }
void _Rb_tree_insert_and_rebalance(const bool left,NP x,NP p,_Rb_tree_node_base& h) throw(){ NP& root=h._M_parent; x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_red;
  if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; } else { p->_M_right=x; if(p==h._M_right) h._M_right=x; }
  while(x!=root&&x->_M_parent->_M_color==_S_red){ NP const xpp=x->_M_parent->_M_parent; if(x->_M_parent==xpp->_M_left){ NP const y=xpp->_M_right; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; xpp->_M_color=_S_red; x=xpp; } else { if(x==x->_M_parent->_M_right){ x=x->_M_parent; rotL(x,root); } x->_M_parent->_M_color=_S_black; xpp->_M_color=_S_red; rotR(xpp,root); } }
    else { NP const y=xpp->_M_left; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; xpp->_M_color=_S_red; x=xpp; } else { if(x==x->_M_parent->_M_left){ x=x->_M_parent; rotR(x,root); } x->_M_parent->_M_color=_S_black; xpp->_M_color=_S_red; rotL(xpp,root); } } }
  root->_M_color=_S_black; }
NP _Rb_tree_rebalance_for_erase(NP const z,_Rb_tree_node_base& h) throw(){ NP& root=h._M_parent; NP& lm=h._M_left; NP& rm=h._M_right; NP y=z; NP x=0; NP xp=0;
  if(y->_M_left==0) x=y->_M_right; else if(y->_M_right==0) x=y->_M_left; else { y=y->_M_right; while(y->_M_left) y=y->_M_left; x=y->_M_right; }
  if(y!=z){ z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if(y!=z->_M_right){ xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y; if(root==z) root=y; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y; y->_M_parent=z->_M_parent; _Rb_tree_color c=y->_M_color; y->_M_color=z->_M_color; z->_M_color=c; y=z; }
  else { xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; if(root==z) root=x; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x; if(lm==z){ if(z->_M_right==0) lm=z->_M_parent; else { NP t=x; while(t->_M_left) t=t->_M_left; lm=t; } } if(rm==z){ if(z->_M_left==0) rm=z->_M_parent; else { NP t=x; while(t->_M_right) t=t->_M_right; rm=t; } } }
  if(y->_M_color!=_S_red){ while(x!=root&&(x==0||x->_M_color==_S_black)) if(x==xp->_M_left){ NP w=xp->_M_right; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotL(xp,root); w=xp->_M_right; } if((w->_M_left==0||w->_M_left->_M_color==_S_black)&&(w->_M_right==0||w->_M_right->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; } else { if(w->_M_right==0||w->_M_right->_M_color==_S_black){ w->_M_left->_M_color=_S_black; w->_M_color=_S_red; rotR(w,root); w=xp->_M_right; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_right) w->_M_right->_M_color=_S_black; rotL(xp,root); break; } }
    else { NP w=xp->_M_left; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotR(xp,root); w=xp->_M_left; } if((w->_M_right==0||w->_M_right->_M_color==_S_black)&&(w->_M_left==0||w->_M_left->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; } else { if(w->_M_left==0||w->_M_left->_M_color==_S_black){ w->_M_right->_M_color=_S_black; w->_M_color=_S_red; rotL(w,root); w=xp->_M_left; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_left) w->_M_left->_M_color=_S_black; rotR(xp,root); break; } }
    if(x) x->_M_color=_S_black; }
  return y; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { this->_M_next=p; this->_M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n=this->_M_next; _List_node_base* p=this->_M_prev; p->_M_next=n; n->_M_prev=p; }
void _List_node_base::_M_transfer(_List_node_base* f,_List_node_base* l) noexcept { if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; _List_node_base* t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
void _List_node_base::swap(_List_node_base& x,_List_node_base& y) noexcept { if(x._M_next!=&x){ if(y._M_next!=&y){ _List_node_base* t=x._M_next; x._M_next=y._M_next; y._M_next=t; t=x._M_prev; x._M_prev=y._M_prev; y._M_prev=t; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; } else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } } else if(y._M_next!=&y){ x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t=this; do { _List_node_base* n=t->_M_next; t->_M_next=t->_M_prev; t->_M_prev=n; t=n; } while(t!=this); }
static const size_t PR[]={2,5,11,23,47,97,199,409,823,1741,3739,7517,15173,30727,62233,126271,256279,520241};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t r=PR[0]; for(size_t p:PR){ r=p; if(p>=n) break; } _M_next_resize=r; return r; }
pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb,size_t ne,size_t ni) const { if(ne+ni>_M_next_resize){ size_t want=ne+ni; if(want<=nb*2) want=nb*2; if(ne+ni>=nb) return {true,_M_next_bkt(want+1)}; _M_next_resize=nb; return {false,0}; } return {false,0}; }
}
size_t _Hash_bytes(const void* p,size_t n,size_t seed){ const unsigned char* c=(const unsigned char*)p; size_t h=seed; for(size_t i=0;i<n;i++) h=(h^c[i])*1099511628211ull; return h; }
void __throw_bad_alloc(){ throw bad_alloc(); } void __throw_bad_array_new_length(){ throw bad_alloc(); }
void __throw_length_error(const char* s){ throw length_error(s); } void __throw_out_of_range(const char* s){ throw out_of_range(s); } void __throw_logic_error(const char* s){ throw logic_error(s); } void __throw_invalid_argument(const char* s){ throw invalid_argument(s); } void __throw_runtime_error(const char* s){ throw runtime_error(s); } void __throw_out_of_range_fmt(const char* s,...){ throw out_of_range(s); } void __throw_bad_function_call(){ throw bad_function_call(); }
}
extern "C" {
size_t strlen(const char* s){ size_t n=0; while(s[n]) n++; return n; }
size_t strnlen(const char* s,size_t m){ size_t n=0; while(n<m&&s[n]) n++; return n; }
int strcmp(const char* a,const char* b){ while(*a&&*a==*b){ a++; b++; } return (unsigned char)*a-(unsigned char)*b; }
int strncmp(const char* a,const char* b,size_t n){ while(n&&*a&&*a==*b){ a++; b++; n--; } return n?(unsigned char)*a-(unsigned char)*b:0; }
char* strchr(const char* s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
char* strrchr(const char* s,int c){ const char* r=0; for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
void* memchr(const void* p,int c,size_t n){ const unsigned char* s=(const unsigned char*)p; for(size_t i=0;i<n;i++) if(s[i]==(unsigned char)c) return (void*)(s+i); return 0; }
char* strcpy(char* d,const char* s){ char* r=d; while((*d++=*s++)); return r; }
char* strncpy(char* d,const char* s,size_t n){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char* strcat(char* d,const char* s){ char* r=d; while(*d) d++; while((*d++=*s++)); return r; }
char* strstr(const char* h,const char* n){ if(!*n) return (char*)h; for(;*h;h++){ size_t i=0; while(n[i]&&h[i]==n[i]) i++; if(!n[i]) return (char*)h; } return 0; }
size_t strspn(const char* s,const char* a){ size_t n=0; for(;s[n];n++){ const char* p=a; while(*p&&*p!=s[n]) p++; if(!*p) break; } return n; }
size_t strcspn(const char* s,const char* a){ size_t n=0; for(;s[n];n++){ const char* p=a; while(*p&&*p!=s[n]) p++; if(*p) break; } return n; }
char* strpbrk(const char* s,const char* a){ s+=strcspn(s,a); return *s?(char*)s:0; }
void* malloc(size_t);
char* strdup(const char* s){ size_t n=strlen(s)+1; char* r=(char*)malloc(n); for(size_t i=0;i<n;i++) r[i]=s[i]; return r; }
static int lc(int c){ return c>='A'&&c<='Z'?c+32:c; }
int strcasecmp(const char* a,const char* b){ while(*a&&lc((unsigned char)*a)==lc((unsigned char)*b)){ a++; b++; } return lc((unsigned char)*a)-lc((unsigned char)*b); }
int strncasecmp(const char* a,const char* b,size_t n){ while(n&&*a&&lc((unsigned char)*a)==lc((unsigned char)*b)){ a++; b++; n--; } return n?lc((unsigned char)*a)-lc((unsigned char)*b):0; }
int32_t u_strlen_74(const char16_t* s){ int32_t n=0; while(s[n]) n++; return n; }
int32_t u_strcmp_74(const char16_t* a,const char16_t* b){ while(*a&&*a==*b){ a++; b++; } return (int32_t)*a-(int32_t)*b; }
char16_t* u_strchr_74(const char16_t* s,char16_t c){ for(;;s++){ if(*s==c) return (char16_t*)s; if(!*s) return 0; } }
}
