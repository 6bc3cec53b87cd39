// Library functions executed by the engine itself, harness intrinsics, native-call policy, main().
#include "engine.h"
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <dlfcn.h>
#include <cmath>
#include <algorithm>
#define BI(nm) static bool nm(Engine& e,const CallInfo& ci,Val* a,int n,Val* r)
static Val mkV(E e){ return e->k==K_CONST?VC(e->cv):Val{0,e}; }
BI(b_memcpy){ u64 l=e.conc(a[2]),d=e.conc(a[0]),s=e.conc(a[1]); e.copyMem(d,s,l); r[0]=VC(d); return false; }
BI(b_mempcpy){ u64 l=e.conc(a[2]),d=e.conc(a[0]),s=e.conc(a[1]); e.copyMem(d,s,l); r[0]=VC(d+l); return false; }
BI(b_memset){ u64 l=e.conc(a[2]),d=e.conc(a[0]); Val b=a[1]; if(b.e&&b.e->w!=8) b=mkV(X.extract(b.e,0,8)); e.setMem(d,b,l); r[0]=VC(d); return false; }
// lexicographic comparison as an expression, without forking
static Val cmpMem(Engine& e,u64 p,u64 q,u64 l,bool eqOnly){ e.chkAcc(p,l,"read"); e.chkAcc(q,l,"read"); 
  if(!e.isSym(p,l)&&!e.isSym(q,l)){ int c=memcmp((void*)p,(void*)q,l); return VC((u32)(c<0?-1:c>0)); }
  E acc=X.c(0,32); for(u64 i=l;i-->0;){ Val x=e.byteAt(p+i),y=e.byteAt(q+i); if(!x.e&&!y.e){ if(x.c==y.c) continue; acc=X.c(eqOnly?1:(x.c<y.c?(u32)-1:1),32); continue; } E ex=e.toE(x,8),ey=e.toE(y,8); E eq=X.bin(K_EQ,ex,ey); E ne=eqOnly?X.c(1,32):X.ite(X.bin(K_ULT,ex,ey),X.c((u32)-1,32),X.c(1,32)); acc=X.ite(eq,acc,ne); }
  return mkV(acc); }
BI(b_memcmp){ u64 l=e.conc(a[2]),p=e.conc(a[0]),q=e.conc(a[1]); r[0]=l?cmpMem(e,p,q,l,false):VC(0); return false; }
BI(b_bcmp){ u64 l=e.conc(a[2]),p=e.conc(a[0]),q=e.conc(a[1]); r[0]=l?cmpMem(e,p,q,l,true):VC(0); return false; }
BI(b_memeq){ u64 l=e.conc(a[2]),p=e.conc(a[0]),q=e.conc(a[1]); if(!l){ r[0]=VC(1); return false; } E acc=X.c(1,1); e.chkAcc(p,l,"read"); e.chkAcc(q,l,"read"); for(u64 i=0;i<l;i++){ Val x=e.byteAt(p+i),y=e.byteAt(q+i); acc=X.bin(K_AND,acc,X.bin(K_EQ,e.toE(x,8),e.toE(y,8))); if(acc->k==K_CONST&&!acc->cv) break; } r[0]=mkV(X.zext(acc,32)); return false; }
BI(b_malloc){ u64 s=e.conc(a[0]); r[0]=VC(e.alloc(s,16,false)); return false; }
BI(b_new){ u64 s=e.conc(a[0]); if(s>(64u<<20)&&e.symPhase){ e.memError("huge allocation"); } r[0]=VC(e.alloc(s,n>1?std::max<u64>(16,e.conc(a[1])):16,false)); return false; }
BI(b_calloc){ u64 s=e.conc(a[0])*e.conc(a[1]); r[0]=VC(e.alloc(s,16,true)); return false; }
BI(b_realloc){ u64 p=e.conc(a[0]),s=e.conc(a[1]); if(!p){ r[0]=VC(e.alloc(s,16,false)); return false; } u64 os=e.allocSize(p); if(os==~0ull){ if(!inArena(p)){ r[0]=VC((u64)::realloc((void*)p,s)); return false; } e.memError("realloc of invalid pointer"); } u64 q=e.alloc(s,16,false); e.copyMem(q,p,std::min(os,s)); e.freeMem(p,"free"); r[0]=VC(q); return false; }
BI(b_free){ e.freeMem(e.conc(a[0]),"free"); return false; }
BI(b_delete){ e.freeMem(e.conc(a[0]),"delete"); return false; }
BI(b_aligned_alloc){ r[0]=VC(e.alloc(e.conc(a[1]),e.conc(a[0]),false)); return false; }
BI(b_nop){ r[0]=VC(0); return false; }
BI(b_one){ r[0]=VC(1); return false; }
// process end
static bool leave(Engine& e,u64 code){ int t=-1; for(int i=(int)e.st.fr.size()-1;i>=0;i--) if(e.st.fr[i].isTry){ t=i; break; } if(t<0){ if(!e.symPhase){ fprintf(stderr,"exit during set-up (%llu)\n%s\n",(unsigned long long)code,e.backtrace().c_str()); _exit(2);} throw PathEnd{"exit"}; }
  while((int)e.st.fr.size()>t) e.popFrame(); Frame& fr=e.st.fr.back(); const CallInfo& ci=fr.f->calls[fr.f->code[fr.pc].x]; Val* R=&e.st.R[fr.base]; if(ci.dst>=0) R[ci.dst]=VC(code&0xffffffff); if(ci.invoke) e.takeEdge(fr.f,R,ci.normal); else fr.pc++; return true; }
BI(b_exit){ u64 c=e.conc(a[0]); return leave(e,1|((c&0xff)<<8)); }
BI(b_abort){ return leave(e,3); }
BI(b_terminate){ return leave(e,2); }
// exceptions
BI(b_alloc_exc){ r[0]=VC(e.alloc(e.conc(a[0]),16,true)); return false; }
BI(b_throw){ Exc x; x.obj=e.conc(a[0]); x.type=e.conc(a[1]); x.dtor=e.conc(a[2]); x.handlers=0; x.adj=x.obj; e.throwExc(x); return true; }
BI(b_begin_catch){ u64 o=e.conc(a[0]); for(size_t i=0;i<e.st.excs.size();i++) if(e.st.excs[i].obj==o){ e.st.excs[i].handlers++; e.st.caught.push_back(i); r[0]=VC(e.st.excs[i].adj); return false; } r[0]=VC(o); return false; }
BI(b_end_catch){ if(!e.st.caught.empty()) e.st.caught.pop_back(); return false; }
BI(b_rethrow){ if(e.st.caught.empty()) return leave(e,2); Exc x=e.st.excs[e.st.caught.back()]; e.st.caught.pop_back(); e.throwExc(x); return true; }
BI(b_get_exc){ r[0]=a[0]; return false; }
BI(b_guard_acquire){ u64 g=e.conc(a[0]); Val v=e.load(g,8); r[0]=VC(!(v.c&1)); return false; }
BI(b_guard_release){ u64 g=e.conc(a[0]); e.store(g,8,VC(1)); return false; }
// llvm intrinsics
static E TE(Engine& e,Val v,int w){ return e.toE(v,w); }
template<Kind K,bool takeFirst> static bool minmax(Engine& e,const CallInfo& ci,Val* a,int,Val* r){ int w=ci.argBits[0]; E x=TE(e,a[0],w),y=TE(e,a[1],w); E c=X.bin(K,x,y); r[0]=mkV(takeFirst?X.ite(c,x,y):X.ite(c,y,x)); return false; }
BI(b_abs){ int w=ci.argBits[0]; E x=TE(e,a[0],w); r[0]=mkV(X.ite(X.bin(K_SLT,x,X.c(0,w)),X.bin(K_SUB,X.c(0,w),x),x)); return false; }
BI(b_usubsat){ int w=ci.argBits[0]; E x=TE(e,a[0],w),y=TE(e,a[1],w); r[0]=mkV(X.ite(X.bin(K_ULT,x,y),X.c(0,w),X.bin(K_SUB,x,y))); return false; }
BI(b_uaddsat){ int w=ci.argBits[0]; E x=TE(e,a[0],w),y=TE(e,a[1],w); E s=X.bin(K_ADD,x,y); r[0]=mkV(X.ite(X.bin(K_ULT,s,x),X.c(maskw(w),w),s)); return false; }
BI(b_uaddo){ int w=ci.argBits[0]; E x=TE(e,a[0],w),y=TE(e,a[1],w); E s=X.bin(K_ADD,x,y); r[0]=mkV(s); r[1]=mkV(X.bin(K_ULT,s,x)); return false; }
BI(b_usubo){ int w=ci.argBits[0]; E x=TE(e,a[0],w),y=TE(e,a[1],w); r[0]=mkV(X.bin(K_SUB,x,y)); r[1]=mkV(X.bin(K_ULT,x,y)); return false; }
BI(b_umulo){ int w=ci.argBits[0]; u64 x=e.conc(a[0]),y=e.conc(a[1]); u128 p=(u128)x*y; r[0]=VC((u64)p&maskw(w)); r[1]=VC((p>>w)!=0); return false; }
BI(b_saddo){ int w=ci.argBits[0]; i64 x=sx(e.conc(a[0]),w),y=sx(e.conc(a[1]),w); __int128 p=(__int128)x+y; r[0]=VC((u64)p&maskw(w)); r[1]=VC(p!=sx((u64)p,w)); return false; }
BI(b_ssubo){ int w=ci.argBits[0]; i64 x=sx(e.conc(a[0]),w),y=sx(e.conc(a[1]),w); __int128 p=(__int128)x-y; r[0]=VC((u64)p&maskw(w)); r[1]=VC(p!=sx((u64)p,w)); return false; }
BI(b_smulo){ int w=ci.argBits[0]; i64 x=sx(e.conc(a[0]),w),y=sx(e.conc(a[1]),w); __int128 p=(__int128)x*y; r[0]=VC((u64)p&maskw(w)); r[1]=VC(p!=sx((u64)p,w)); return false; }
BI(b_ctlz){ int w=ci.argBits[0]; u64 x=e.conc(a[0]); r[0]=VC(x?__builtin_clzll(x)-(64-w):w); return false; }
BI(b_cttz){ int w=ci.argBits[0]; u64 x=e.conc(a[0]); r[0]=VC(x?__builtin_ctzll(x):w); return false; }
BI(b_ctpop){ r[0]=VC(__builtin_popcountll(e.conc(a[0]))); return false; }
BI(b_bswap){ int w=ci.argBits[0]; E x=TE(e,a[0],w); E o=nullptr; for(int i=0;i<w;i+=8){ E b=X.extract(x,i,8); o=o?X.concat(o,b):b; } r[0]=mkV(o); return false; }
template<bool L> static bool fsh(Engine& e,const CallInfo& ci,Val* a,int,Val* r){ int w=ci.argBits[0]; u64 s=e.conc(a[2])%w; E x=TE(e,a[0],w),y=TE(e,a[1],w); if(!L) s=s?w-s:0; if(s==0){ r[0]=L?a[0]:a[1]; return false; } r[0]=mkV(X.bin(K_OR,X.bin(K_SHL,x,X.c(s,w)),X.bin(K_LSHR,y,X.c(w-s,w)))); return false; }
BI(b_trap){ e.memError("trap (undefined behaviour)"); }
BI(b_stacksave){ r[0]=VC(e.st.sp); return false; }
BI(b_isconst){ r[0]=VC(0); return false; }
BI(b_objsize){ r[0]=VC(~0ull); return false; }
BI(b_va_start){ u64 p=e.conc(a[0]); Frame& f=e.st.fr.back(); e.store(p,32,VC(48)); e.store(p+4,32,VC(176)); e.store(p+8,64,VC(f.va)); e.store(p+16,64,VC(0)); return false; }
BI(b_va_copy){ e.copyMem(e.conc(a[0]),e.conc(a[1]),24); return false; }
template<double(*F)(double)> static bool fp1(Engine& e,const CallInfo& ci,Val* a,int,Val* r){ u64 c=e.conc(a[0]); if(ci.argFP[0]==4){ float f; u32 w=c; memcpy(&f,&w,4); f=(float)F(f); memcpy(&w,&f,4); r[0]=VC(w); } else { double d; memcpy(&d,&c,8); d=F(d); memcpy(&c,&d,8); r[0]=VC(c); } return false; }
BI(b_fmuladd){ u64 x=e.conc(a[0]),y=e.conc(a[1]),z=e.conc(a[2]); if(ci.argFP[0]==4){ float p,q,s; u32 w; w=x; memcpy(&p,&w,4); w=y; memcpy(&q,&w,4); w=z; memcpy(&s,&w,4); p=p*q+s; memcpy(&w,&p,4); r[0]=VC(w);} else { double p,q,s; memcpy(&p,&x,8); memcpy(&q,&y,8); memcpy(&s,&z,8); p=p*q+s; memcpy(&x,&p,8); r[0]=VC(x);} return false; }
// ---- harness intrinsics
static void beginSym(Engine& e){ if(!e.symPhase){ e.symPhase=true; e.st.steps=0; e.model.v.assign(MAXVARS,0); } }
BI(b_var){ std::string nm=e.str(e.conc(a[0])); u64 p=e.conc(a[1]),cnt=e.conc(a[2]); int bits=e.conc(a[3]); beginSym(e);
  { auto it=e.params.find("v."+nm); if(it!=e.params.end()){ r[0]=VC(strtoull(it->second.c_str(),0,0)); return false; } }   // debugging aid: fixed value
  std::vector<u64> dom; for(u64 i=0;i<cnt;i++) dom.push_back(e.load(p+8*i,64).c&maskw(bits)); std::sort(dom.begin(),dom.end()); dom.erase(std::unique(dom.begin(),dom.end()),dom.end()); if(dom.size()==1){ r[0]=VC(dom[0]); return false; }
  int id=-1; for(size_t i=0;i<X.vars.size();i++) if(X.vars[i].name==nm&&X.vars[i].dom==dom) id=i;
  if(id<0){ id=X.vars.size(); if(cnt){ int nb=dom.back()<2?1:dom.back()<256?8:dom.back()<65536?16:bits; X.newVar(nm,std::min(nb,bits),&dom); } else X.newVar(nm,bits,nullptr); }
  VarSet one{}; one.w[id>>6]=1ull<<(id&63); e.st.used.add(one);
  Var& v=X.vars[id]; if(v.limited&&!std::binary_search(v.dom.begin(),v.dom.end(),e.model.v[id])){ e.model.v[id]=v.dom[0]; X.newEpoch(); }
  r[0]=mkV(X.zext(v.e,64)); return false; }
static E truth(Engine& e,Val v,int w){ if(!v.e) return X.c((v.c&maskw(w))!=0,1); return X.lnot(X.bin(K_EQ,v.e,X.c(0,v.e->w))); }
BI(b_assume){ E c=truth(e,a[0],ci.argBits[0]); if(c->k==K_CONST){ if(!c->cv) throw PathEnd{"assume"}; return false; } Model m=e.model; int f=e.feasible(c,&m); if(f==0) throw PathEnd{"assume"}; if(f==1) e.model=m; X.newEpoch(); e.addPC(c); if(!(X.eval(c,e.model)&1)) throw PathEnd{"assume"}; return false; }
BI(b_assert){ E c=truth(e,a[0],ci.argBits[0]); std::string l=e.str(e.conc(a[1])); e.doAssert(c->k==K_CONST?VC(c->cv):Val{0,c},l); return false; }
BI(b_fail){ std::string l=e.str(e.conc(a[0])); e.violation(l,e.model,"harness reported failure"); throw PathEnd{"fail"}; }
BI(b_note){ std::string l="NOTE "+e.str(e.conc(a[0])); e.label(l)->n++; return false; }
BI(b_unsupported){ throw Inconclusive{"unsupported: "+e.str(e.conc(a[0]))}; }
BI(b_concretize){ r[0]=VC(e.conc(a[0])); return false; }
BI(b_param){ std::string l=e.str(e.conc(a[0])); auto it=e.params.find(l); r[0]=it==e.params.end()?a[1]:VC((u64)atoll(it->second.c_str())&0xffffffff); return false; }
BI(b_params){ std::string l=e.str(e.conc(a[0])); auto it=e.params.find(l); if(it==e.params.end()){ r[0]=VC(0); return false; } u64 p=e.alloc(it->second.size()+1,16,false); for(size_t i=0;i<=it->second.size();i++) e.setByte(p+i,VC((uint8_t)it->second.c_str()[i])); r[0]=VC(p); return false; }
BI(b_try){ u64 fn=e.conc(a[0]); Val arg=a[1]; Func* f=funcAt(fn); if(!f||!f->hasBody) e.memError("sym_try: bad function"); e.pushFrame(f,&arg,1,nullptr); e.st.fr.back().isTry=1; return true; }
BI(b_stop){ throw PathEnd{"stop"}; }
BI(b_issym){ r[0]=VC(a[0].e!=nullptr); return false; }
BI(b_symmode){ r[0]=VC(1); return false; }
BI(b_dump){ Val v=a[0]; std::string s=e.str(e.conc(a[1])); fprintf(stderr,"[dump] %s = %s (model %llu)\n",s.c_str(),v.e?X.str(v.e).c_str():std::to_string(v.c).c_str(),(unsigned long long)(v.e?X.eval(v.e,e.model):v.c)); return false; }
BI(b_dumpmem){ u64 p=e.conc(a[0]),l=e.conc(a[1]); std::string s=e.str(e.conc(a[2])); fprintf(stderr,"[mem] %s = '",s.c_str()); for(u64 i=0;i<l;i++){ Val b=e.byteAt(p+i); u64 c=b.e?X.eval(b.e,e.model):b.c; if(c>=32&&c<127) fprintf(stderr,b.e?"{%c}":"%c",(int)c); else fprintf(stderr,b.e?"{%02x}":"<%02x>",(int)c); } fprintf(stderr,"'\n"); return false; }
// ---- number parsing / formatting through native code on concrete text
static std::string ctext(Engine& e,u64 p){ return e.str(p,4096); }
template<class F> static bool strnum(Engine& e,Val* a,int n,Val* r,F fn){ u64 p=e.conc(a[0]); u64 ep=n>1?e.conc(a[1]):0; int base=n>2?(int)e.conc(a[2]):10; std::string s=ctext(e,p); char* end; u64 v=fn(s.c_str(),&end,base); if(ep) e.store(ep,64,VC(p+(end-s.c_str()))); r[0]=VC(v); return false; }
BI(b_strtol){ return strnum(e,a,n,r,[](const char* s,char** q,int b){ return (u64)strtol(s,q,b); }); }
BI(b_strtoul){ return strnum(e,a,n,r,[](const char* s,char** q,int b){ return (u64)strtoul(s,q,b); }); }
BI(b_strtod){ return strnum(e,a,n,r,[](const char* s,char** q,int){ double d=strtod(s,q); u64 c; memcpy(&c,&d,8); return c; }); }
BI(b_strtof){ return strnum(e,a,n,r,[](const char* s,char** q,int){ float d=strtof(s,q); u32 c; memcpy(&c,&d,4); return (u64)c; }); }
BI(b_atoi){ std::string s=ctext(e,e.conc(a[0])); r[0]=VC((u32)atoi(s.c_str())); return false; }
// printf family on concrete values: builds the native argument lists
static std::string fmtNative(Engine& e,const CallInfo& ci,Val* a,int n,int fmtIdx){ u64 iv[12]={0}; double dv[8]={0}; int ni=0,nd=0; std::string f=ctext(e,e.conc(a[fmtIdx])); std::vector<std::string> keep; keep.reserve(16);
  // collect %s argument positions so that symbolic strings get concretised
  std::vector<char> conv; for(size_t i=0;i<f.size();i++) if(f[i]=='%'){ i++; while(i<f.size()&&strchr("-+ #0123456789.lhzjtL",f[i])) i++; if(i<f.size()&&f[i]!='%') conv.push_back(f[i]); }
  for(int i=fmtIdx+1;i<n;i++){ u64 c=e.conc(a[i]); int k=i-fmtIdx-1; if(ci.argFP[i]){ double d; memcpy(&d,&c,8); if(nd<8) dv[nd++]=d; } else { if(k<(int)conv.size()&&conv[k]=='s'){ keep.push_back(c?ctext(e,c):"(null)"); c=(u64)keep.back().c_str(); } else if(ci.argBits[i]==32) c=(u64)sx(c,32); if(ni<10) iv[ni++]=c; } }
  char buf[8192]; int (*fn)(char*,size_t,const char*,...)=(int(*)(char*,size_t,const char*,...))snprintf; fn(buf,sizeof buf,f.c_str(),iv[0],iv[1],iv[2],dv[0],dv[1],dv[2],dv[3],dv[4],dv[5],dv[6],dv[7],iv[3],iv[4],iv[5],iv[6],iv[7],iv[8],iv[9]); return buf; }
static void putStr(Engine& e,u64 d,const std::string& s,size_t max){ size_t l=std::min(s.size(),max?max-1:0); for(size_t i=0;i<l;i++) e.store(d+i,8,VC((uint8_t)s[i])); if(max) e.store(d+l,8,VC(0)); }
BI(b_sprintf){ std::string s=fmtNative(e,ci,a,n,1); putStr(e,e.conc(a[0]),s,s.size()+1); r[0]=VC(s.size()); return false; }
BI(b_snprintf){ std::string s=fmtNative(e,ci,a,n,2); putStr(e,e.conc(a[0]),s,e.conc(a[1])); r[0]=VC(s.size()); return false; }
// string produced by sym_format(fmt,...) for harness/rt use
BI(b_format){ std::string s=fmtNative(e,ci,a,n,0); u64 p=e.alloc(s.size()+1,16,false); for(size_t i=0;i<=s.size();i++) e.setByte(p+i,VC((uint8_t)s.c_str()[i])); r[0]=VC(p); return false; }
BI(b_tab){ // sym_apply(fn native name, value): unary lifting by name
  return false; }
int policyFor(const std::string& n){ auto p=purity.find(n); if(p!=purity.end()) return p->second;
  for(const char* s:{"_ZN3CLI","_ZN11Compression","_ZN8Alphabet4read","_ZN8AlphabetC","_ZN8AlphabetD","_ZN11TransducerC","_ZN11TransducerD","_ZN11Transducer4read","_ZN7MatchExe","_ZN11PatternList","_ZNK11PatternList","_ZN12XMLParseUtil","xml","_ZN8childrenC","_ZN8childrenD","_ZN8children","_ZNSt8ios_base","_ZNSt6locale","_ZNKSt6locale","_ZNKSt5ctype","_ZNSt14basic_ifstream","_ZNSt13basic_filebuf","_ZNSi","_ZNSt3_V2"}) if(n.rfind(s,0)==0) return 1;
  return 0; }
void registerBuiltins(){
  auto& b=builtins; b["memcpy"]=b["memmove"]=b["llvm.memcpy"]=b["llvm.memmove"]=b_memcpy; b["mempcpy"]=b_mempcpy; b["memset"]=b["llvm.memset"]=b_memset; b["memcmp"]=b_memcmp; b["bcmp"]=b_bcmp;
  b["malloc"]=b_malloc; b["calloc"]=b_calloc; b["realloc"]=b_realloc; b["free"]=b_free; b["aligned_alloc"]=b_aligned_alloc;
  b["_Znwm"]=b["_Znam"]=b["_ZnwmRKSt9nothrow_t"]=b["_ZnamRKSt9nothrow_t"]=b_malloc; b["_ZnwmSt11align_val_t"]=b["_ZnamSt11align_val_t"]=b_new; b["_Znwm"]=b["_Znam"]=b["_ZnwmRKSt9nothrow_t"]=b["_ZnamRKSt9nothrow_t"]=[](Engine& e,const CallInfo& ci,Val* a,int,Val* r)->bool{ return b_new(e,ci,a,1,r); };
  for(const char* s:{"_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t","_ZdaPvSt11align_val_t"}) b[s]=b_delete;
  b["exit"]=b["_exit"]=b["_Exit"]=b_exit; b["abort"]=b["__assert_fail"]=b_abort; b["_ZSt9terminatev"]=b["__clang_call_terminate"]=b["__cxa_pure_virtual"]=b["__cxa_throw_bad_array_new_length"]=b_terminate;
  b["__cxa_allocate_exception"]=b_alloc_exc; b["__cxa_free_exception"]=b_nop; b["__cxa_throw"]=b_throw; b["__cxa_begin_catch"]=b_begin_catch; b["__cxa_end_catch"]=b_end_catch; b["__cxa_rethrow"]=b_rethrow; b["__cxa_get_exception_ptr"]=b_get_exc;
  b["__cxa_guard_acquire"]=b_guard_acquire; b["__cxa_guard_release"]=b_guard_release; b["__cxa_guard_abort"]=b_nop; b["__cxa_atexit"]=b["atexit"]=b_nop;
  b["llvm.umin"]=minmax<K_ULT,true>; b["llvm.umax"]=minmax<K_ULT,false>; b["llvm.smin"]=minmax<K_SLT,true>; b["llvm.smax"]=minmax<K_SLT,false>; b["llvm.abs"]=b_abs;
  b["llvm.usub.sat"]=b_usubsat; b["llvm.uadd.sat"]=b_uaddsat; b["llvm.uadd.with.overflow"]=b_uaddo; b["llvm.usub.with.overflow"]=b_usubo; b["llvm.umul.with.overflow"]=b_umulo; b["llvm.sadd.with.overflow"]=b_saddo; b["llvm.ssub.with.overflow"]=b_ssubo; b["llvm.smul.with.overflow"]=b_smulo;
  b["llvm.ctlz"]=b_ctlz; b["llvm.cttz"]=b_cttz; b["llvm.ctpop"]=b_ctpop; b["llvm.bswap"]=b_bswap; b["llvm.fshl"]=fsh<true>; b["llvm.fshr"]=fsh<false>; b["llvm.trap"]=b["llvm.ubsantrap"]=b_trap; b["llvm.stacksave"]=b_stacksave; b["llvm.stackrestore"]=b_nop; b["llvm.is.constant"]=b_isconst; b["llvm.objectsize"]=b_objsize;
  b["llvm.va_start"]=b_va_start; b["llvm.va_end"]=b_nop; b["llvm.va_copy"]=b_va_copy; b["llvm.fabs"]=fp1<fabs>; b["llvm.floor"]=fp1<floor>; b["llvm.ceil"]=fp1<ceil>; b["llvm.sqrt"]=fp1<sqrt>; b["llvm.log"]=b["log"]=b["logf"]=fp1<log>; b["llvm.exp"]=b["exp"]=fp1<exp>; b["ceilf"]=fp1<ceil>; b["llvm.round"]=fp1<round>; b["llvm.trunc"]=fp1<trunc>; b["llvm.fmuladd"]=b_fmuladd;
  b["sym_var"]=b_var; b["sym_assume"]=b_assume; b["sym_assert"]=b_assert; b["sym_fail"]=b_fail; b["sym_note"]=b_note; b["sym_unsupported"]=b_unsupported; b["sym_concretize"]=b_concretize; b["sym_param"]=b_param; b["sym_params"]=b_params; b["sym_try"]=b_try; b["sym_stop"]=b_stop; b["sym_issym"]=b_issym; b["sym_mode"]=b_symmode; b["sym_dump"]=b_dump; b["sym_dumpmem"]=b_dumpmem; b["sym_mem_eq"]=b_memeq; b["sym_format"]=b_format;
  b["strtol"]=b["strtoll"]=b["__isoc23_strtol"]=b["__isoc23_strtoll"]=b_strtol; b["strtoul"]=b["strtoull"]=b["__isoc23_strtoul"]=b["__isoc23_strtoull"]=b_strtoul; b["strtod"]=b_strtod; b["strtof"]=b_strtof; b["atoi"]=b_atoi; b["sprintf"]=b_sprintf; b["snprintf"]=b_snprintf;
  for(const char* s:{"perror","setlocale","u_setDataDirectory","LtLocale_tryToSetLocale","xmlFreeDoc","_ZN5StateD1Ev","_ZN8TransExeD1Ev","_ZN8AlphabetD1Ev","_ZN8AlphabetD2Ev","_ZN10TransducerD1Ev","_ZN8MatchExeD1Ev","_ZNSt6localeD1Ev","_ZNSt6localeD2Ev","_ZNSt8ios_baseD2Ev","_ZNSt8ios_baseD1Ev","_ZN8LtLocale14tryToSetLocaleEv"}) b[s]=b_nop;
  b["fprintf"]=b["vfprintf"]=b["fputs_err"]=b_nop;
  // pure natives: 2 = liftable over one finite-domain argument, 1 = harmless on concrete data
  for(const char* s:{"u_tolower","u_toupper","u_isupper","u_islower","u_isalpha","u_isalnum","u_isspace","u_isblank","u_isdigit","u_ispunct","u_iscntrl","u_isUWhiteSpace","u_isUAlphabetic","u_istitle","u_totitle","u_charType","u_foldCase","u_isUUppercase","u_isULowercase","u_isWhitespace","u_isbase","u_isgraph","u_isprint","u_charDigitValue","u_getIntPropertyValue","isspace","isalpha","isalnum","isdigit","isupper","islower","toupper","tolower","ispunct","isxdigit","iscntrl","isprint","isgraph","isblank","iswspace","iswalpha","iswupper","iswlower","towlower","towupper","iswdigit","iswalnum","iswpunct"}){ purity[s]=2; purity[std::string(s)+"_74"]=2; }
  for(const char* s:{"__errno_location","__ctype_b_loc","__ctype_tolower_loc","__ctype_toupper_loc","getenv","getopt_long","getopt","_ZNSt11logic_errorC1EPKc","_ZNSt12length_errorC1EPKc","_ZNSt12out_of_rangeC1EPKc","_ZNSt16invalid_argumentC1EPKc","_ZNSt13runtime_errorC1EPKc","_ZNSt11logic_errorC2EPKc","_ZNSt12length_errorC2EPKc","_ZNSt12out_of_rangeC2EPKc","_ZNSt16invalid_argumentC2EPKc","_ZNSt13runtime_errorC2EPKc","_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE","_ZNSt12out_of_rangeD1Ev","_ZNSt13runtime_errorD1Ev","_ZNSt13runtime_errorD2Ev","_ZNSt9exceptionD2Ev","_ZNSt9exceptionD1Ev","_ZNSt11logic_errorD1Ev","_ZNSt12length_errorD1Ev","isatty","fileno","_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm_x","__gmon_start__","pow","fmod","log10","fopen","fopen64","fseek","ftell","rewind","__native_fread","__native_fread_unlocked","__native_fgetc","__native_getc","__native_fclose","__native_feof","__native_ferror","__native_clearerr","__native_ungetc","u_errorName_74","basename","__xpg_basename","__dynamic_cast","strerror","__native_u_fclose_74"}) purity[s]=1;
}
void operator delete(void* p) noexcept { if(!p) return; if(inArena((u64)p)){ EN.freeMem((u64)p,"delete"); return; } if(EN.symPhase&&EN.inNative) return; free(p); }
void operator delete(void* p,size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p,size_t) noexcept { operator delete(p); }
int main(int argc,char** argv){
  std::vector<std::pair<std::string,bool>> files; std::string entry="harness_main"; int jobs=8; std::string sum; double dl=0; int viol=6;
  for(int i=1;i<argc;i++){ std::string s=argv[i]; auto nx=[&]{ if(i+1>=argc){ fprintf(stderr,"missing value for %s\n",argv[i]); exit(2);} return std::string(argv[++i]); };
    if(s=="--repo") files.push_back({nx(),true}); else if(s=="--other") files.push_back({nx(),false}); else if(s=="--entry") entry=nx(); else if(s=="--jobs") jobs=atoi(nx().c_str()); else if(s=="--deadline") dl=atof(nx().c_str()); else if(s=="--out") EN.outFile=nx(); else if(s=="--summary") sum=nx(); else if(s=="--steps") EN.stepLimit=atoll(nx().c_str()); else if(s=="-v") EN.verbose=true; else if(s=="--trace") EN.traceCalls=true; else if(s=="--viol") viol=atoi(nx().c_str()); else if(s=="--dl"){ std::string so=nx(); if(!dlopen(so.c_str(),RTLD_NOW|RTLD_GLOBAL)){ fprintf(stderr,"%s\n",dlerror()); return 2; } }
    else if(s=="--param"){ std::string kv=nx(); size_t p=kv.find('='); EN.params[kv.substr(0,p)]=kv.substr(p+1); } else { fprintf(stderr,"unknown option %s\n",s.c_str()); return 2; } }
  EN.maxViol=viol; EN.sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); EN.sh->maxActive=jobs;
  double t0=nowS(); registerBuiltins(); EN.initMem(); if(!loadModules(files)) return 2;
  Func* f=EN.byName.count(entry)?EN.byName[entry]:nullptr; if(!f||!f->hasBody){ fprintf(stderr,"no entry %s\n",entry.c_str()); return 2; }
  if(EN.outFile.empty()) EN.outFile="/dev/null"; double tl=nowS()-t0; if(dl) EN.deadline=nowS()+dl; EN.run(f);
  Shared& s=*EN.sh; FILE* o=sum.empty()?stdout:fopen(sum.c_str(),"w"); if(!o) o=stdout;
  auto je=[](const std::string& s){ std::string r; for(char c:s){ if(c=='"'||c=='\\') r+='\\'; if((unsigned char)c>=32) r+=c; } return r; };
  fprintf(o,"{\"paths\":%llu,\"ended\":%llu,\"forks\":%llu,\"instructions\":%llu,\"decisions\":%llu,\"native_calls\":%llu,\"asserts_concrete\":%llu,\"asserts_symbolic\":%llu,\"queries\":%llu,\"cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"violations\":%llu,\"max_depth\":%llu,\"inconclusive\":%llu,\"killed\":%llu,\"crashed\":%d,\"deadline_cut\":%llu,\"incomplete\":%d,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.2f,\"load_s\":%.2f,\n",(unsigned long long)s.paths,(unsigned long long)s.ended,(unsigned long long)s.forks,(unsigned long long)s.instrs,(unsigned long long)s.decisions,(unsigned long long)s.natives,(unsigned long long)s.asserts,(unsigned long long)s.assertsSym,(unsigned long long)s.queries,(unsigned long long)s.cacheHits,(unsigned long long)s.sat,(unsigned long long)s.unsat,(unsigned long long)s.unknown,(unsigned long long)s.violations,(unsigned long long)s.maxdepth,(unsigned long long)s.inconcl,(unsigned long long)s.killed,(int)s.crashed,(unsigned long long)s.cut,(int)s.incomplete,s.solver_us*1e-6,s.maxq_us*1e-6,nowS()-t0,tl);
  fprintf(o,"\"labels\":{"); bool first=true; for(auto& l:s.labels) if(l.used==2){ fprintf(o,"%s\"%s\":[%llu,%llu]",first?"":",",je(l.name).c_str(),(unsigned long long)l.n,(unsigned long long)l.sym); first=false; } fprintf(o,"},\n\"functions\":["); first=true; for(Func* g:EN.funcs) if(g->repo&&g->idx<65536&&s.funcHit[g->idx]){ fprintf(o,"%s\"%s\"",first?"":",",je(g->name).c_str()); first=false; } fprintf(o,"]}\n"); if(o!=stdout) fclose(o);
  fflush(stdout); _exit(0); }
