// Memory, path exploration and the interpreter loop.
#include "engine.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <setjmp.h>
#include <dlfcn.h>
#include <typeinfo>
#include <cxxabi.h>
#include <cmath>
#include <algorithm>
#include <set>
#include <time.h>
Engine EN; 
std::unordered_map<std::string,Builtin> builtins; std::unordered_map<std::string,int> purity;
double nowS(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static E* shadow; static u64* symb; static u64* addrb; static u64 symHigh=0;
static sigjmp_buf segvJmp; static volatile int segvArmed=0; static volatile u64 segvAddr=0;
static void onSegv(int s,siginfo_t* si,void*){ if(segvArmed){ segvAddr=(u64)si->si_addr; segvArmed=0; siglongjmp(segvJmp,1);} signal(s,SIG_DFL); raise(s); }
template<class T> static T* bigmap(u64 n){ void* p=mmap(0,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED){ perror("mmap"); exit(2);} return (T*)p; }
void Engine::initMem(){
  void* p=mmap((void*)BASE,ARENA,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p!=(void*)BASE){ perror("arena"); exit(2);} 
  shadow=bigmap<E>(ARENA*8); symb=bigmap<u64>(ARENA/8); addrb=bigmap<u64>(ARENA/8);
  st.sp=BASE+GLOB+64; st.bump=BASE+GLOB+STACK+64; st.nalloc=0; st.steps=0; st.uncaughtN=0;
  stack_t ss; ss.ss_sp=malloc(1<<16); ss.ss_size=1<<16; ss.ss_flags=0; sigaltstack(&ss,0);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=onSegv; sa.sa_flags=SA_SIGINFO|SA_NODEFER|SA_ONSTACK; sigaction(SIGSEGV,&sa,0); sigaction(SIGBUS,&sa,0);
}
// an address whose previous content must be restored on backtracking
static inline bool needLog(u64 a){ Engine& e=EN; if(!e.logging) return false; u64 o=a-BASE; if(o<GLOB) return true; if(o<GLOB+STACK) return a<e.stackLim; return a<e.heapLim; }
void Engine::logWord(u64 w){ u64 o=w-BASE; u32 mask=(symb[o>>6]>>(o&56))&0xff; u32 ex=0; if(mask){ ex=trailEx.size()+1; trailEx.push_back((E)(u64)mask); for(int i=0;i<8;i++) if(mask>>i&1) trailEx.push_back(shadow[o+i]); }
  trail.push_back(TrailE{w,*(u64*)w,0,ex}); }
void Engine::logNative(u64 w){ trail.push_back(TrailE{w,*(u64*)w,3,0}); }
void Engine::setAddrBits(u64 addr,u64 len,bool v){ u64 o=addr-BASE, e=o+len; while(o<e){ u64 wi=o>>6; int b=o&63; u64 n=std::min<u64>(64-b,e-o); u64 m=(n==64?~0ull:((1ull<<n)-1))<<b; u64 old=addrb[wi], nw=v?old|m:old&~m;
    if(old!=nw){ if(logging&&(needLog(BASE+(wi<<6))||needLog(BASE+o))) trail.push_back(TrailE{wi,old,1,0}); addrb[wi]=nw; } o+=n; } }
static void rawClear(u64* bm,u64 from,u64 to){ // addresses, no logging
  u64 o=from-BASE,e=to-BASE; while(o<e){ u64 wi=o>>6; int b=o&63; u64 n=std::min<u64>(64-b,e-o); u64 m=(n==64?~0ull:((1ull<<n)-1))<<b; if(bm[wi]&m) bm[wi]&=~m; o+=n; } }
bool Engine::okAcc(u64 a,u32 n){ u64 o=a-BASE; u64 w=o>>6; int b=o&63; u64 v=addrb[w]>>b; if(b+n>64) v|=addrb[w+1]<<(64-b); u64 m=n>=64?~0ull:(1ull<<n)-1; return (v&m)==m; }
void Engine::chkAcc(u64 a,u64 n,const char* what){ if(!n) return; if(inArena(a)){ if(!inArena(a+n-1)) memError(std::string(what)+" out of bounds"); u64 x=a,left=n; while(left){ u32 k=std::min<u64>(left,32); if(!okAcc(x,k)){ char b[160]; snprintf(b,sizeof b,"invalid %s of %llu bytes",what,(unsigned long long)n); memError(b);} x+=k; left-=k; } }
  else if(a<0x10000) memError(std::string("null pointer ")+what); else if(a>>47) memError(std::string("wild pointer ")+what); }
bool Engine::isSym(u64 a,u64 n){ if(!inArena(a)||!n) return false; u64 o=a-BASE,e=o+n; while(o<e){ int b=o&63; u64 k=std::min<u64>(64-b,e-o); u64 m=(k==64?~0ull:((1ull<<k)-1))<<b; if(symb[o>>6]&m) return true; o+=k; } return false; }
Val Engine::byteAt(u64 a){ Val v{*(uint8_t*)a,nullptr}; if(inArena(a)){ u64 o=a-BASE; if(symb[o>>6]>>(o&63)&1) v.e=shadow[o]; } return v; }
void Engine::setByte(u64 a,Val v){ if(v.e&&v.e->k==K_CONST){ v.c=v.e->cv; v.e=nullptr; }
  if(!inArena(a)){ if(v.e) v.c=concretize(v.e); if(logging) logNative(a&~7ull); *(uint8_t*)a=v.c; return; }
  if(needLog(a)) logWord(a&~7ull); u64 o=a-BASE; if(v.e){ symb[o>>6]|=1ull<<(o&63); shadow[o]=v.e; } else { symb[o>>6]&=~(1ull<<(o&63)); *(uint8_t*)a=v.c; } }
Val Engine::loadBytes(u64 a,int n){ // possibly symbolic
  E e=nullptr; for(int i=0;i<n;i++){ Val b=byteAt(a+i); E x=toE(b,8); e=e?X.concat(x,e):x; } if(e->k==K_CONST) return VC(e->cv); return Val{0,e}; }
Val Engine::load(u64 a,int bits){
  int n=(bits+7)/8; 
  if(!inArena(a)){ if(a<0x10000) memError("null pointer read"); if(a>>47) memError("wild pointer read"); segvArmed=1; if(sigsetjmp(segvJmp,0)){ memError("wild pointer read"); } u64 v=0; memcpy(&v,(void*)a,n); segvArmed=0; return VC(v&maskw(bits)); }
  if(!okAcc(a,n)){ char b[96]; snprintf(b,sizeof b,"invalid read of %d bytes",n); memError(b);} 
  u64 o=a-BASE; int b=o&63; u64 m=(1ull<<n)-1; bool s=(symb[o>>6]>>b)&m; if(b+n>64) s=s||isSym(a,n);
  if(!s){ u64 v=0; switch(n){case 1: v=*(uint8_t*)a;break; case 2: v=*(uint16_t*)a;break; case 4: v=*(u32*)a;break; case 8: v=*(u64*)a;break; default: memcpy(&v,(void*)a,n);} return VC(v&maskw(bits)); }
  Val v=loadBytes(a,n); if(bits!=8*n){ if(v.e){ E x=X.extract(v.e,0,bits); return x->k==K_CONST?VC(x->cv):Val{0,x}; } return VC(v.c&maskw(bits)); } return v; }
void Engine::store(u64 a,int bits,Val v){
  int n=(bits+7)/8; if(v.e&&v.e->k==K_CONST){ v.c=v.e->cv; v.e=nullptr; }
  if(!inArena(a)){ if(a<0x10000) memError("null pointer write"); if(a>>47) memError("wild pointer write"); if(v.e) v.c=concretize(v.e);
    segvArmed=1; if(sigsetjmp(segvJmp,0)) memError("wild pointer write"); if(logging){ logNative(a&~7ull); if(((a+n-1)&~7ull)!=(a&~7ull)) logNative((a+n-1)&~7ull);} memcpy((void*)a,&v.c,n); segvArmed=0; return; }
  if(!okAcc(a,n)){ char b[96]; snprintf(b,sizeof b,"invalid write of %d bytes",n); memError(b);} 
  if(needLog(a)||needLog(a+n-1)){ logWord(a&~7ull); if(((a+n-1)&~7ull)!=(a&~7ull)) logWord((a+n-1)&~7ull); }
  if(!v.e){ u64 o=a-BASE; int b=o&63; u64 m=((n==8?~0ull>>56:(1ull<<n)-1)); if(b+n<=64){ if(symb[o>>6]&(m<<b)) symb[o>>6]&=~(m<<b); } else rawClear(symb,a,a+n);
    switch(n){case 1:*(uint8_t*)a=v.c;break;case 2:*(uint16_t*)a=v.c;break;case 4:*(u32*)a=v.c;break;case 8:*(u64*)a=v.c;break;default: memcpy((void*)a,&v.c,n);} return; }
  E e=v.e; if(e->w<8*n) e=X.zext(e,8*n); u64 o=a-BASE;
  for(int i=0;i<n;i++){ E x=X.extract(e,8*i,8); u64 q=o+i; if(x->k==K_CONST){ symb[q>>6]&=~(1ull<<(q&63)); *(uint8_t*)(a+i)=x->cv; } else { symb[q>>6]|=1ull<<(q&63); shadow[q]=x; } } }
void Engine::copyMem(u64 d,u64 s,u64 n){ if(!n||d==s) return; chkAcc(s,n,"read"); chkAcc(d,n,"write");
  segvArmed=1; if(sigsetjmp(segvJmp,0)) memError("wild pointer copy"); volatile uint8_t t=*(volatile uint8_t*)s; t=*(volatile uint8_t*)(s+n-1); (void)t; segvArmed=0;
  bool ss=isSym(s,n), ds=isSym(d,n);
  if(logging){ if(inArena(d)){ for(u64 w=d&~7ull;w<d+n;w+=8) if(needLog(w)||needLog(w+7)) logWord(w); } else for(u64 w=d&~7ull;w<d+n;w+=8) logNative(w); }
  if(!ss){ if(ds) rawClear(symb,d,d+n); memmove((void*)d,(void*)s,n); return; }
  if(!inArena(d)){ std::vector<uint8_t> tmp(n); for(u64 i=0;i<n;i++){ Val b=byteAt(s+i); tmp[i]=b.e?concretize(b.e):b.c; } memcpy((void*)d,tmp.data(),n); return; }
  std::vector<Val> tmp(n); for(u64 i=0;i<n;i++) tmp[i]=byteAt(s+i);
  for(u64 i=0;i<n;i++){ u64 o=d+i-BASE; if(tmp[i].e){ symb[o>>6]|=1ull<<(o&63); shadow[o]=tmp[i].e; } else { symb[o>>6]&=~(1ull<<(o&63)); *(uint8_t*)(d+i)=tmp[i].c; } } }
void Engine::setMem(u64 d,Val b,u64 n){ if(!n) return; chkAcc(d,n,"write"); 
  if(logging){ if(inArena(d)){ for(u64 w=d&~7ull;w<d+n;w+=8) if(needLog(w)||needLog(w+7)) logWord(w); } else for(u64 w=d&~7ull;w<d+n;w+=8) logNative(w); }
  if(b.e&&inArena(d)){ for(u64 i=0;i<n;i++){ u64 o=d+i-BASE; symb[o>>6]|=1ull<<(o&63); shadow[o]=b.e; } return; }
  if(b.e) b.c=concretize(b.e); if(inArena(d)&&isSym(d,n)) rawClear(symb,d,d+n); memset((void*)d,(int)b.c,n); }
u64 Engine::alloc(u64 n,u64 align,bool zero){ if(align<16) align=16; u64 a=(st.bump+16+align-1)&~(align-1); u64 end=a+n+16; end=(end+15)&~15ull; if(n>(64u<<20)) throw Inconclusive{"allocation of "+std::to_string(n)+" bytes"}; 
  if(end-BASE>ARENA-4096){ if(symPhase){ violation("resource:memory",model,"heap exhausted (unbounded allocation)"); throw PathEnd{"oom"}; } fprintf(stderr,"arena exhausted\n"); exit(2);} 
  rawClear(symb,st.bump,end); u64 old=st.bump; (void)old; st.bump=end; // region above heapLim: no logging required
  setAddrBits(a,n,true); allocs.resize(st.nalloc); allocs.push_back(Alloc{a-BASE,n,true}); st.nalloc++; memset((void*)a,zero?0:0xBE,n); *(u64*)(a-16)=0x51AB0000ull+0; *(u64*)(a-8)=st.nalloc-1; return a; }
u64 Engine::allocSize(u64 a){ if(!inArena(a)||a-BASE<GLOB+STACK||a>=st.bump) return ~0ull; u64 ix=*(u64*)(a-8); if(ix>=st.nalloc||allocs[ix].off!=a-BASE) return ~0ull; return allocs[ix].live?allocs[ix].len:~0ull; }
void Engine::freeMem(u64 a,const char* what){ if(!a) return; if(!inArena(a)){ if(!symPhase) ::free((void*)a); return; }
  u64 off=a-BASE; if(off<GLOB+STACK||a>=st.bump) memError(std::string(what)+" of a non-heap pointer"); u64 ix=*(u64*)(a-8);
  if(ix>=st.nalloc||allocs[ix].off!=off) memError(std::string(what)+" of an invalid pointer"); if(!allocs[ix].live) memError(std::string("double ")+what);
  if(logging&&a<heapLim) trail.push_back(TrailE{ix,1,2,0}); allocs[ix].live=false; setAddrBits(a,allocs[ix].len,false); }
u64 Engine::stackAlloc(u64 n,u64 align){ if(align<16) align=16; u64 a=(st.sp+16+align-1)&~(align-1); u64 end=(a+n+15)&~15ull; if(end-BASE>GLOB+STACK-4096){ if(symPhase){ violation("resource:stack",model,"stack exhausted (unbounded recursion)"); throw PathEnd{"stack"}; } fprintf(stderr,"stack exhausted\n"); exit(2);} 
  if(isSym(a,end-a)){ if(logging) for(u64 w=a&~7ull;w<end;w+=8) if(needLog(w)) logWord(w); rawClear(symb,a,end); }
  st.sp=end; setAddrBits(a,n,true); return a; }
std::string Engine::str(u64 a,size_t max){ std::string s; for(size_t i=0;i<max;i++){ Val b=byteAt(a+i); u64 c=conc(b); if(!c) break; s+=(char)c; } return s; }
// ------------------------------------------------------------------ path condition
void Engine::addPC(E c){ if(c->k==K_CONST) return; if(c->k==K_AND&&c->w==1){ addPC(c->a[0]); addPC(c->a[1]); return; } if(pcSet[c]++==0||true) pc.push_back(c); }
int Engine::feasible(E c,Model* m){ if(c->k==K_CONST) return c->cv?1:0;
  VarSet vs=c->vars; std::vector<E> cs; cs.push_back(c); std::vector<char> used(pc.size(),0); bool ch=true; while(ch){ ch=false; for(size_t i=0;i<pc.size();i++) if(!used[i]&&pc[i]->vars.meets(vs)){ used[i]=1; cs.push_back(pc[i]); if(!pc[i]->vars.subset(vs)){ vs.add(pc[i]->vars); ch=true; } } }
  int r=S.check(cs,m); if(r<0) sh->incomplete=1; return r; }
void Engine::updLims(){ if(cps.empty()){ logging=false; heapLim=stackLim=0; } else { logging=true; heapLim=cps.back().st.bump; stackLim=cps.back().msp; } }
void Engine::pushCP(E alt,const Model& m){ cps.emplace_back(); CP& c=cps.back(); c.st=st; c.msp=std::max(st.sp,cps.size()>1?cps[cps.size()-2].msp:0); c.trail=trail.size(); c.trailEx=trailEx.size(); c.pc=pc.size(); c.model=m; c.alt=alt; updLims(); sh->forks++; u64 d=cps.size(); if(d>sh->maxdepth) sh->maxdepth=d; }
void Engine::restoreTo(CP& c){ 
  rawClear(addrb,c.st.bump,std::max(st.bump,c.st.bump)); rawClear(addrb,c.st.sp,std::max(st.sp,c.st.sp));
  while(trail.size()>c.trail){ TrailE& t=trail.back(); switch(t.kind){
      case 0: { u64 o=t.where-BASE; *(u64*)t.where=t.old; u64 m=0xffull<<(o&56); u64 cur=symb[o>>6]; if(t.ex){ u32 mask=(u32)(u64)trailEx[t.ex-1]; int k=t.ex; for(int i=0;i<8;i++) if(mask>>i&1) shadow[o+i]=trailEx[k++]; symb[o>>6]=(cur&~m)|((u64)mask<<(o&56)); } else if(cur&m) symb[o>>6]=cur&~m; break; }
      case 1: addrb[t.where]=t.old; break; case 2: allocs[t.where].live=true; break; case 3: *(u64*)t.where=t.old; break; }
    trail.pop_back(); }
  trailEx.resize(c.trailEx); while(pc.size()>c.pc){ auto it=pcSet.find(pc.back()); if(it!=pcSet.end()&&--it->second==0) pcSet.erase(it); pc.pop_back(); }
  st=std::move(c.st); allocs.resize(st.nalloc); model=c.model; X.newEpoch(); }
bool Engine::backtrack(){ if(cps.empty()) return false; CP c=std::move(cps.back()); cps.pop_back(); restoreTo(c); updLims(); addPC(c.alt); sh->paths++; return true; }
// truth already fixed by the path condition: 1 true, 2 false, 0 open
int Engine::known(E c){ if(c->k==K_CONST) return c->cv?1:2; if(pcSet.count(c)) return 1; if(pcSet.count(X.lnot(c))) return 2; int var=c->vars.single(); if(var<0||!c->tab||!X.vars[var].limited) return 0; auto f=feasVals(var); int r=0; for(u64 i:f){ int t=(*c->tab)[i]?1:2; if(!r) r=t; else if(r!=t) return 0; } return r; }
bool Engine::decide(E c){ if(c->k==K_CONST) return c->cv; decisions++;
  if(pcSet.count(c)) return true; E nc=X.lnot(c); if(pcSet.count(nc)) return false;
  bool v=X.eval(c,model)&1; E other=v?nc:c; Model m2=model; int r=feasible(other,&m2);
  if(r==1) pushCP(other,m2);
  if(r!=0) addPC(v?c:nc);
  return v; }
u64 Engine::concretize(E e){ if(e->k==K_CONST) return e->cv; decisions++; u64 v=X.eval(e,model); E eq=X.bin(K_EQ,e,X.c(v,e->w)); if(eq->k==K_CONST||pcSet.count(eq)) return v;
  Model m2=model; int r=feasible(X.lnot(eq),&m2); if(r==1) pushCP(X.lnot(eq),m2); if(r!=0) addPC(eq); return v; }
std::vector<u64> Engine::feasVals(int var){ const Var& v=X.vars[var]; std::vector<char> ok(v.dom.size(),1); for(E c:pc) if(c->vars.single()==var&&c->tab) for(size_t i=0;i<ok.size();i++) if(!(*c->tab)[i]) ok[i]=0; std::vector<u64> r; for(size_t i=0;i<ok.size();i++) if(ok[i]) r.push_back(i); return r; }
Val Engine::loadSymAddr(E a,int bits){ int var=a->vars.single(); int n=(bits+7)/8;
  if(var>=0&&X.vars[var].limited&&a->tab){ auto idx=feasVals(var); bool good=true; std::unordered_map<u64,u64> seen; 
    for(u64 i:idx){ u64 ad=(*a->tab)[i]; if(seen.count(ad)) continue; if(!inArena(ad)){ if(ad<0x10000||ad>>47){ good=false; break; } segvArmed=1; if(sigsetjmp(segvJmp,0)){ good=false; break; } volatile uint8_t t=*(volatile uint8_t*)ad; (void)t; segvArmed=0; } else if(!okAcc(ad,n)||isSym(ad,n)){ good=false; break; } u64 v=0; memcpy(&v,(void*)ad,n); seen[ad]=v&maskw(bits); }
    if(good&&!idx.empty()){ std::vector<u64> vals(X.vars[var].dom.size(),seen[(*a->tab)[idx[0]]]); for(u64 i:idx) vals[i]=seen[(*a->tab)[i]]; E e=X.table(var,bits,std::move(vals)); return e->k==K_CONST?VC(e->cv):Val{0,e}; } }
  if(var<0&&a->k==K_ADD){ // table row + column: fork on every addend but the one with the most values, then read the row as a table
    std::vector<E> t,todo{a}; while(!todo.empty()){ E e=todo.back(); todo.pop_back(); if(e->k==K_ADD){ todo.push_back(e->a[0]); todo.push_back(e->a[1]); } else t.push_back(e); }
    int keep=-1; size_t best=0; for(size_t i=0;i<t.size();i++){ int v=t[i]->vars.single(); if(v<0||!X.vars[v].limited||!t[i]->tab) continue; std::set<u64> d; for(u64 k:feasVals(v)) d.insert((*t[i]->tab)[k]); if(d.size()>best){ best=d.size(); keep=(int)i; } }
    if(keep>=0){ u64 c=0; for(size_t i=0;i<t.size();i++) if((int)i!=keep) c+=t[i]->k==K_CONST?t[i]->cv:concretize(t[i]); E n2=X.bin(K_ADD,t[keep],X.c(c,64)); if(n2->k==K_CONST) return load(n2->cv,bits); if(n2->vars.single()>=0) return loadSymAddr(n2,bits); return load(concretize(n2),bits); } }
  return load(concretize(a),bits); }
// ------------------------------------------------------------------ reports
Shared::L* Engine::label(const std::string& s0){ std::string s=s0.substr(0,119); u64 h=std::hash<std::string>()(s)%1024; for(int k=0;k<1024;k++,h=(h+1)%1024){ auto& l=sh->labels[h]; int z=0; if(l.used==2){ if(s==l.name) return &l; continue; } if(l.used.compare_exchange_strong(z,1)){ strncpy(l.name,s.c_str(),119); l.used=2; return &l; } while(l.used==1); if(s==l.name) return &l; } return &sh->labels[0]; }
static std::string jesc(const std::string& s){ std::string r; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
std::string Engine::backtrace(){ std::string s; for(size_t i=st.fr.size();i-->0;){ auto& f=st.fr[i]; int stt; char* d=abi::__cxa_demangle(f.f->name.c_str(),0,0,&stt); s+=(d?std::string(d):f.f->name).substr(0,100); free(d); if(f.pc<f.f->code.size()) s+=":"+std::to_string(f.f->code[f.pc].line); s+=" < "; if(s.size()>1500) break; } return s; }
void Engine::violation(const std::string& lab,const Model& m,const std::string& detail){ 
  bool kf=lab.rfind("KF:",0)==0; if(++violCount[lab]>3) return; auto* l=label("VIOL "+lab); if(++l->n>8) return; if(!kf&&++sh->violations>=(u64)maxViol) sh->stop=1;
  std::string s="{\"type\":\"violation\",\"label\":\""+jesc(lab)+"\",\"detail\":\""+jesc(detail)+"\",\"where\":\""+jesc(backtrace())+"\",\"vars\":{"; bool f=true; for(size_t i=0;i<X.vars.size();i++) if(st.used.has(i)){ if(!f) s+=","; f=false; s+="\""+jesc(X.vars[i].name)+"\":"+std::to_string(i<m.v.size()?m.v[i]:0); } s+="}}\n";
  int fd=open(outFile.c_str(),O_WRONLY|O_APPEND|O_CREAT,0644); if(fd>=0){ if(write(fd,s.data(),s.size())<0){} close(fd);} if(verbose) fputs(s.c_str(),stderr); }
// a model of a finished path, for the comparison with the natively compiled code
void Engine::sample(){ std::string s="{\"type\":\"sample\",\"vars\":{"; bool f=true; for(size_t i=0;i<X.vars.size();i++) if(st.used.has(i)){ if(!f) s+=","; f=false; s+="\""+jesc(X.vars[i].name)+"\":"+std::to_string(i<model.v.size()?model.v[i]:0); } s+="}}\n";
  int fd=open((outFile+".samples").c_str(),O_WRONLY|O_APPEND|O_CREAT,0644); if(fd>=0){ if(write(fd,s.data(),s.size())<0){} close(fd);} }
void Engine::doAssert(Val c,const std::string& lab){ auto* l=label(lab); l->n++; sh->asserts++; if(!c.e){ if(!(c.c&1)){ violation(lab,model,"assertion is false on this path"); throw PathEnd{"assert"}; } return; }
  sh->asserts--; sh->assertsSym++; l->sym++; E cc=c.e->w==1?c.e:X.lnot(X.bin(K_EQ,c.e,X.c(0,c.e->w))); Model m2=model; int r=feasible(X.lnot(cc),&m2); if(r==1){ violation(lab,m2,"solver model falsifies the assertion"); if(feasible(cc,&m2)!=1) throw PathEnd{"assert"}; model=m2; X.newEpoch(); addPC(cc); } }
void Engine::memError(const std::string& w){ segvArmed=0; if(!symPhase){ fprintf(stderr,"memory error during set-up: %s\n%s\n",w.c_str(),backtrace().c_str()); exit(2);} std::string fn="?"; for(size_t i=st.fr.size();i-->0;) if(st.fr[i].f->repo){ fn=st.fr[i].f->name; break; } violation("memory:"+w+" in "+fn,model,w); throw PathEnd{"memory"}; }
// ------------------------------------------------------------------ sharing / statistics
void Engine::flushStats(bool){ sh->instrs+=instrs; instrs=0; sh->decisions+=decisions; decisions=0; sh->natives+=nativeCalls; nativeCalls=0; sh->queries+=S.queries; sh->cacheHits+=S.cacheHits; sh->sat+=S.sat; sh->unsat+=S.unsat; sh->unknown+=S.unknown; sh->solver_us+=(u64)(S.time*1e6); u64 mx=S.maxTime*1e6; if(mx>sh->maxq_us) sh->maxq_us=mx; S.queries=S.cacheHits=S.sat=S.unsat=S.unknown=0; S.time=0; }
void Engine::maybeShare(){ double t=nowS(); if(deadline&&t>deadline&&!sh->stop){ sh->stop=1; sh->incomplete=1; sh->cut=1; }
  if(t-statT>1){ statT=t; FILE* f=fopen("/proc/self/statm","r"); long a=0,b=0; if(f){ if(fscanf(f,"%ld %ld",&a,&b)!=2) b=0; fclose(f);} if(b*4096.0>2.8e9){ sh->incomplete=1; sh->killed++; throw std::runtime_error("worker memory limit"); } }
  if(cps.empty()||t-lastShare<0.004) return; int a=sh->active; if(a>=sh->maxActive) return; if(!sh->active.compare_exchange_strong(a,a+1)) return;
  flushStats(false); pid_t p=fork(); if(p<0){ sh->active--; return; }
  lastShare=nowS();
  if(p==0){ CP c=std::move(cps[0]); cps.clear(); restoreTo(c); updLims(); addPC(c.alt); sh->paths++; kids.clear(); throw PathEnd{"forked"}; }
  cps.erase(cps.begin()); updLims(); }
// ------------------------------------------------------------------ interpreter
void Engine::pushFrame(Func* f,Val* args,int n,const CallInfo* ci){ if(!f->decoded) decodeFunc(f); if(f->repo) sh->funcHit[f->idx]=1;
  Frame fr; fr.f=f; fr.pc=0; fr.base=st.R.size(); fr.sp=st.sp; fr.va=0; fr.vaN=0; fr.isTry=0; fr.tryRes=0;
  if(st.fr.size()>20000){ if(symPhase){ violation("resource:stack",model,"call depth"); throw PathEnd{"stack"}; } }
  std::vector<Val> tmp; if(f->vararg&&ci){ int nf=f->nargs; tmp.assign(args,args+n); args=tmp.data(); int nv=n-nf; if(nv>0){ fr.va=stackAlloc(nv*8,16); for(int i=0;i<nv;i++) store(fr.va+8*i,64,args[nf+i].e?Val{0,X.zext(args[nf+i].e,64)}:args[nf+i]); } n=nf; }
  st.R.resize(fr.base+f->nslots,VC(0)); Val* R=&st.R[fr.base]; for(int i=0;i<n&&i<f->nargs;i++) R[i]=args[i];
  st.fr.push_back(fr); }
void Engine::popFrame(){ Frame& fr=st.fr.back(); if(st.sp>fr.sp){ setAddrBits(fr.sp,st.sp-fr.sp,false); st.sp=fr.sp; } st.R.resize(fr.base); st.fr.pop_back(); }
void Engine::takeEdge(Func* f,Val* R,int edge){ Edge& e=f->edges[edge]; size_t n=e.moves.size(); 
  if(n==1){ auto& m=e.moves[0]; R[m.dst]=m.src>=0?R[m.src]:f->consts[-m.src-2]; }
  else if(n){ Val tmpA[16]; std::vector<Val> tv; Val* t=tmpA; if(n>16){ tv.resize(n); t=tv.data(); } for(size_t i=0;i<n;i++){ int s=e.moves[i].src; t[i]=s>=0?R[s]:f->consts[-s-2]; } for(size_t i=0;i<n;i++) R[e.moves[i].dst]=t[i]; }
  st.fr.back().pc=e.target; }
void Engine::doRet(Val* v,int n){ // return from the top frame with n slots
  Val tmp[8]; for(int i=0;i<n&&i<8;i++) tmp[i]=v[i]; bool isTry=st.fr.back().isTry; popFrame(); if(st.fr.empty()) throw PathEnd{"done"};
  Frame& fr=st.fr.back(); Inst& in=fr.f->code[fr.pc]; CallInfo& ci=fr.f->calls[in.x]; Val* R=&st.R[fr.base]; if(isTry){ if(ci.dst>=0) R[ci.dst]=VC(0); } else if(ci.dst>=0) for(int i=0;i<n&&i<ci.retSlots;i++) R[ci.dst+i]=tmp[i];
  if(ci.invoke) takeEdge(fr.f,R,ci.normal); else fr.pc++; }
struct TIprobe : std::type_info { static bool doCatch(const std::type_info* c,const std::type_info* t,void** p){ return c->__do_catch(t,p,1); } static bool isPtr(const std::type_info* t){ return t->__is_pointer_p(); } };
static bool typeMatch(u64 clause,const Exc& ex,u64& adj){ adj=ex.obj; if(!clause) return true; void* p=(void*)ex.obj; auto* t=(const std::type_info*)ex.type; auto* c=(const std::type_info*)clause; if(t->__is_pointer_p()) p=*(void**)p; if(c->__do_catch(t,&p,1)){ adj=(u64)p; return true; } return false; }
// find the landing pad of the invoke the frame is stopped at
static Func::LP* padOf(Frame& fr,int& edge){ if(fr.pc>=fr.f->code.size()) return nullptr; Inst& in=fr.f->code[fr.pc]; if(in.op!=OP_CALL) return nullptr; CallInfo& ci=fr.f->calls[in.x]; if(!ci.invoke) return nullptr; edge=ci.unwind; u32 t=fr.f->edges[edge].target; while(fr.f->code[t].op==OP_MOVES) t++; if(fr.f->code[t].op!=OP_LPAD) return nullptr; return &fr.f->lps[fr.f->code[t].x]; }
static int matchPad(Func::LP* lp,const Exc& ex,u64& sel,u64& adj){ // 0 none, 1 cleanup, 2 handler
  int idx=0; for(auto& cl:lp->clauses){ idx++; if(cl.filter){ bool any=false; for(u64 t:cl.types){ u64 ad; if(typeMatch(t,ex,ad)) any=true; } if(!any){ sel=(u32)-idx; adj=ex.obj; return 2; } } else { u64 ad; if(typeMatch(cl.types[0],ex,ad)){ sel=cl.types[0]?(u32)cl.types[0]:1; adj=ad; return 2; } } }
  if(lp->cleanup){ sel=0; adj=ex.obj; return 1; } return 0; }
void Engine::throwExc(Exc ex){ // the frame on top is at the throwing call
  bool found=false; int tryAt=-1; for(int i=(int)st.fr.size()-1;i>=0;i--){ int ed; Func::LP* lp=padOf(st.fr[i],ed); if(lp){ u64 s,a; if(matchPad(lp,ex,s,a)==2){ found=true; break; } } if(st.fr[i].isTry){ tryAt=i; break; } }
  if(!found){ if(tryAt<0){ std::string n=((std::type_info*)ex.type)->name(); violation("uncaught exception",model,n); throw PathEnd{"uncaught"}; }
    st.uncaughtN=1; while((int)st.fr.size()-1>tryAt) popFrame(); popFrame(); Frame& fr=st.fr.back(); CallInfo& ci=fr.f->calls[fr.f->code[fr.pc].x]; Val* R=&st.R[fr.base]; if(ci.dst>=0) R[ci.dst]=VC(2); if(ci.invoke) takeEdge(fr.f,R,ci.normal); else fr.pc++; return; }
  int ix=-1; for(size_t i=0;i<st.excs.size();i++) if(st.excs[i].obj==ex.obj){ st.excs[i]=ex; ix=i; } if(ix<0){ st.excs.push_back(ex); ix=st.excs.size()-1; }
  resumeUnwind(ix); }
void Engine::resumeUnwind(int ix){ for(;;){ if(st.fr.empty()) throw PathEnd{"unwind"}; Frame& fr=st.fr.back(); int ed; Func::LP* lp=padOf(fr,ed); if(lp){ u64 s,a; Exc& ex=st.excs[ix]; int m=matchPad(lp,ex,s,a); if(m){ if(m==2) ex.adj=a; takeEdge(fr.f,&st.R[fr.base],ed); Frame& g=st.fr.back(); while(g.f->code[g.pc].op!=OP_LPAD) g.pc++; Inst& in=g.f->code[g.pc]; Val* R=&st.R[g.base]; R[in.dst]=VC(ex.obj); R[in.dst+1]=VC(s&0xffffffff); g.pc++; return; } }
    popFrame(); } }
Func* funcAt(u64 a){ auto it=EN.byAddr.find(a); return it==EN.byAddr.end()?nullptr:it->second; }
typedef struct { u64 a,b; } Pair;
typedef Pair (*NFn)(...); typedef double (*NFd)(...); 
bool Engine::callNative(Func* f,const CallInfo& ci,Val* args,int n,Val* ret){ nativeCalls++;
  if(!f->native){ throw Inconclusive{"unresolved external function "+f->name}; }
  if(symPhase&&!f->policy) throw Inconclusive{"native function "+f->name+" called on the symbolic phase"};
  if(ci.unsup) throw Inconclusive{"unsupported native signature "+f->name};
  u64 iv[14]; double dv[8]; int ni=0,nd=0; memset(iv,0,sizeof iv); memset(dv,0,sizeof dv); 
  // unary lifting over a finite-domain argument
  int symArg=-1,nsym=0; for(int i=0;i<n;i++) if(args[i].e){ symArg=i; nsym++; }
  if(nsym){ if(f->policy==2&&nsym==1&&args[symArg].e->tab&&args[symArg].e->vars.single()>=0&&!ci.argFP[symArg]&&!ci.retFP&&ci.retSlots==1){ E a=args[symArg].e; int var=a->vars.single(); static std::map<std::pair<Func*,E>,E> memo; 
      std::vector<u64> idx=feasVals(var); std::vector<u64> vals(X.vars[var].dom.size(),0); std::unordered_map<u64,u64> seen; 
      auto key=std::make_pair(f,a); bool cacheable=n==1; auto it=cacheable?memo.find(key):memo.end(); if(it!=memo.end()){ ret[0]=it->second->k==K_CONST?VC(it->second->cv):Val{0,it->second}; return false; }
      for(size_t i=0;i<vals.size();i++){ u64 v=(*a->tab)[i]; auto s=seen.find(v); if(s==seen.end()){ for(int k=0;k<n;k++) iv[k]=k==symArg?(ci.argBits[k]==32?(u64)sx(v,32):v):args[k].c; Pair p=((NFn)f->native)(iv[0],iv[1],iv[2],iv[3],iv[4],iv[5]); s=seen.emplace(v,p.a&maskw(ci.retBits)).first; } vals[i]=s->second; }
      E e=X.table(var,ci.retBits,std::move(vals)); if(cacheable) memo[key]=e; ret[0]=e->k==K_CONST?VC(e->cv):Val{0,e}; return false; }
    for(int i=0;i<n;i++) if(args[i].e) args[i]=VC(concretize(args[i].e)); }
  for(int i=0;i<n;i++){ if(ci.argFP[i]){ double d; u64 c=args[i].c; if(ci.argFP[i]==4){ d=0; u32 w=(u32)c; memcpy(&d,&w,4); } else memcpy(&d,&c,8); if(nd<8) dv[nd++]=d; else throw Inconclusive{"too many fp args"}; } else { if(ni>=14) throw Inconclusive{"too many args for native "+f->name}; iv[ni++]=ci.argBits[i]==32?(u64)sx(args[i].c,32):args[i].c; } }
  if(symPhase&&logging) for(int i=0;i<n;i++) if(!ci.argFP[i]&&inArena(args[i].c)){ u64 p=args[i].c,l=allocSize(p); if(l==~0ull){ u64 o=p-BASE; l=o<GLOB?64:o<GLOB+STACK?std::min<u64>(512,st.sp-p):0; } l=std::min<u64>(l,1024); for(u64 w=p&~7ull;w<p+l;w+=8) if(needLog(w)) logWord(w); }
  segvArmed=1; int inN=inNative; inNative++; struct Res{ int v; ~Res(){ EN.inNative=v; } } res{inN};
  if(sigsetjmp(segvJmp,0)){ EN.inNative=inN; if(symPhase) memError("fault inside "+f->name); fprintf(stderr,"fault in native %s\n%s\n",f->name.c_str(),backtrace().c_str()); exit(2); }
  try {
    if(ci.retFP){ double d; if(ci.retFP==4||ci.retFP==8) d=((NFd)f->native)(iv[0],iv[1],iv[2],iv[3],iv[4],iv[5],dv[0],dv[1],dv[2],dv[3],dv[4],dv[5],dv[6],dv[7],iv[6],iv[7],iv[8],iv[9],iv[10],iv[11],iv[12],iv[13]); else d=0; u64 c=0; memcpy(&c,&d,8); ret[0]=VC(ci.retFP==4?c&0xffffffff:c); }
    else { Pair p=((NFn)f->native)(iv[0],iv[1],iv[2],iv[3],iv[4],iv[5],dv[0],dv[1],dv[2],dv[3],dv[4],dv[5],dv[6],dv[7],iv[6],iv[7],iv[8],iv[9],iv[10],iv[11],iv[12],iv[13]); ret[0]=VC(ci.retBits?p.a&maskw(ci.retBits>64?64:ci.retBits):p.a); ret[1]=VC(p.b); }
  } catch(Inconclusive&){ throw; } catch(PathEnd&){ throw; } catch(std::exception& e){ segvArmed=0; throw Inconclusive{"native "+f->name+" threw: "+e.what()}; } catch(...){ segvArmed=0; throw Inconclusive{"native "+f->name+" threw"}; }
  segvArmed=0; return false; }
void Engine::doCall(const Inst& in){ Frame& fr=st.fr.back(); Func* cf=fr.f; const CallInfo& ci=cf->calls[in.x]; Val* R=&st.R[fr.base]; int n=ci.args.size(); Val abuf[32]; std::vector<Val> av; Val* args=abuf; if(n>32){ av.resize(n); args=av.data(); }
  for(int i=0;i<n;i++){ int s=ci.args[i]; args[i]=s>=0?R[s]:cf->consts[-s-2]; }
  Func* f=ci.direct; if(!f){ Val p=ci.callee>=0?R[ci.callee]:cf->consts[-ci.callee-2]; u64 a=conc(p); f=funcAt(a); if(!f){ if(a<0x10000||inArena(a)||a>>47) memError("call through an invalid function pointer"); Dl_info di; if(!dladdr((void*)a,&di)) memError("call through an invalid function pointer"); f=new Func(); f->name=di.dli_sname?di.dli_sname:"?"; f->native=(void*)a; f->addr=a; f->idx=funcs.size(); funcs.push_back(f); auto b=builtins.find(f->name); if(b!=builtins.end()) f->bi=b->second; f->policy=policyFor(f->name); auto bn=byName.find(f->name); if(bn!=byName.end()&&bn->second->hasBody) f=bn->second; byAddr[a]=f; } }
  Val ret[4]={VC(0),VC(0),VC(0),VC(0)};
  if(f->bi){ if(f->bi(*this,ci,args,n,ret)) return; }
  else if(f->hasBody){ if(traceCalls) fprintf(stderr,"%*s%s\n",(int)st.fr.size(),"",f->name.c_str()); 
    for(int i=0;i<n;i++) if(ci.byval[i]){ u64 sz=ci.byval[i]; u64 a=stackAlloc(sz,16); copyMem(a,conc(args[i]),sz); args[i]=VC(a); }
    pushFrame(f,args,n,&ci); return; }
  else { callNative(f,ci,args,n,ret); }
  Frame& f2=st.fr.back(); Val* R2=&st.R[f2.base]; if(ci.dst>=0) for(int i=0;i<ci.retSlots&&i<4;i++) R2[ci.dst+i]=ret[i]; if(ci.invoke) takeEdge(f2.f,R2,ci.normal); else f2.pc++; }
static inline u64 cbin(int k,int w,u64 x,u64 y){ u64 m=maskw(w); switch(k){ case K_ADD: return (x+y)&m; case K_SUB: return (x-y)&m; case K_MUL: return (x*y)&m; case K_AND: return x&y; case K_OR: return x|y; case K_XOR: return x^y; case K_SHL: return y>=(u64)w?0:(x<<y)&m; case K_LSHR: return y>=(u64)w?0:x>>y; case K_ASHR: return (u64)(sx(x,w)>>(y>=(u64)w?w-1:y))&m; } return 0; }
static E icmpE(int pred,E a,E b){ switch(pred){ case 32: return X.bin(K_EQ,a,b); case 33: return X.lnot(X.bin(K_EQ,a,b)); case 34: return X.bin(K_ULT,b,a); case 35: return X.bin(K_ULE,b,a); case 36: return X.bin(K_ULT,a,b); case 37: return X.bin(K_ULE,a,b); case 38: return X.bin(K_SLT,b,a); case 39: return X.bin(K_SLE,b,a); case 40: return X.bin(K_SLT,a,b); default: return X.bin(K_SLE,a,b);} }
static inline bool icmpC(int pred,int w,u64 a,u64 b){ switch(pred){ case 32: return a==b; case 33: return a!=b; case 34: return a>b; case 35: return a>=b; case 36: return a<b; case 37: return a<=b; case 38: return sx(a,w)>sx(b,w); case 39: return sx(a,w)>=sx(b,w); case 40: return sx(a,w)<sx(b,w); default: return sx(a,w)<=sx(b,w);} }
static inline double asD(u64 c,int bits){ if(bits==32){ float f; u32 w=c; memcpy(&f,&w,4); return f; } double d; memcpy(&d,&c,8); return d; }
static inline u64 fromD(double d,int bits){ if(bits==32){ float f=d; u32 w; memcpy(&w,&f,4); return w; } u64 c; memcpy(&c,&d,8); return c; }
#define G(s) ((s)>=0?R[s]:f->consts[-(s)-2])
static inline Val mkV(E e){ return e->k==K_CONST?VC(e->cv):Val{0,e}; }
void Engine::loop(){
  unsigned cnt=0;
  for(;;){
    Frame* fr=&st.fr.back(); Func* f=fr->f; Val* R=st.R.data()+fr->base; 
    for(;;){
      const Inst& in=f->code[fr->pc]; instrs++; 
      if((++cnt&1023)==0){ st.steps+=1024; if(symPhase){ if(sh->stop) throw PathEnd{"stopped"}; if(st.steps>stepLimit){ std::string fn="?"; for(size_t i=st.fr.size();i-->0;) if(st.fr[i].f->repo){ fn=st.fr[i].f->name; break; } violation("nontermination in "+fn,model,"step limit on one path"); throw PathEnd{"steps"}; } if((cnt&16383)==0) maybeShare(); } }
      switch(in.op){
        case OP_NOP: fr->pc++; break;
        case OP_BIN: { Val a=G(in.a),b=G(in.b); if(!a.e&&!b.e){ u64 x=a.c,y=b.c,r; int w=in.bits; if(in.sub>=K_UDIV&&in.sub<=K_SREM){ if(!y) memError("division by zero"); switch(in.sub){ case K_UDIV: r=x/y; break; case K_UREM: r=x%y; break; case K_SDIV: r=sx(y,w)==-1?(0-x)&maskw(w):(u64)(sx(x,w)/sx(y,w))&maskw(w); break; default: r=sx(y,w)==-1?0:(u64)(sx(x,w)%sx(y,w))&maskw(w);} } else r=cbin(in.sub,w,x,y); R[in.dst]=VC(r); }
          else { E p=toE(a,in.bits),q=toE(b,in.bits); if(in.sub>=K_UDIV&&in.sub<=K_SREM){ E z=X.bin(K_EQ,q,X.c(0,in.bits)); if(decide(z)) memError("division by zero"); } R[in.dst]=mkV(X.bin((Kind)in.sub,p,q)); } fr->pc++; break; }
        case OP_ICMP: { Val a=G(in.a),b=G(in.b); if(!a.e&&!b.e) R[in.dst]=VC(icmpC(in.sub,in.bits,a.c,b.c)); else R[in.dst]=mkV(icmpE(in.sub,toE(a,in.bits),toE(b,in.bits))); fr->pc++; break; }
        case OP_FBIN: { Val a=G(in.a),b=G(in.b); double x=asD(conc(a),in.bits),y=asD(conc(b),in.bits),r; switch(in.sub){case 0:r=in.bits==32?(float)x+(float)y:x+y;break;case 1:r=in.bits==32?(float)x-(float)y:x-y;break;case 2:r=in.bits==32?(float)x*(float)y:x*y;break;case 3:r=in.bits==32?(float)x/(float)y:x/y;break;default:r=fmod(x,y);} R[in.dst]=VC(fromD(r,in.bits)); fr->pc++; break; }
        case OP_FNEG: { double x=asD(conc(G(in.a)),in.bits); R[in.dst]=VC(fromD(-x,in.bits)); fr->pc++; break; }
        case OP_FCMP: { double x=asD(conc(G(in.a)),in.bits),y=asD(conc(G(in.b)),in.bits); bool un=std::isnan(x)||std::isnan(y); int p=in.sub; bool r; bool eq=x==y,gt=x>y,lt=x<y; r=((p&1)&&eq)||((p&2)&&gt)||((p&4)&&lt)||((p&8)&&un); if(p==15) r=true; R[in.dst]=VC(r); fr->pc++; break; }
        case OP_TRUNC: { Val a=G(in.a); R[in.dst]=a.e?mkV(X.extract(a.e,0,in.bits)):VC(a.c&maskw(in.bits)); fr->pc++; break; }
        case OP_ZEXT: { Val a=G(in.a); if(a.e&&a.e->w==1&&in.bits>=16){ if(int k=known(a.e)){ R[in.dst]=VC(k==1); fr->pc++; break; } if(in.bits==64){ R[in.dst]=VC(decide(a.e)); fr->pc++; break; } } R[in.dst]=a.e?mkV(X.zext(a.e,in.bits)):a; fr->pc++; break; }
        case OP_SEXT: { Val a=G(in.a); R[in.dst]=a.e?mkV(X.sext(a.e,in.bits)):VC((u64)sx(a.c,in.bits2)&maskw(in.bits)); fr->pc++; break; }
        case OP_COPY: R[in.dst]=G(in.a); fr->pc++; break;
        case OP_FPCAST: { u64 c=conc(G(in.a)); u64 r=0; switch(in.sub){ case 0: r=(u64)(i64)asD(c,in.bits2)&maskw(in.bits); break; case 1: r=(u64)asD(c,in.bits2)&maskw(in.bits); break; case 2: r=in.bits==32?fromD((float)sx(c,in.bits2),32):fromD((double)sx(c,in.bits2),64); break; case 3: r=in.bits==32?fromD((float)c,32):fromD((double)c,64); break; case 4: r=fromD(asD(c,64),32); break; case 5: r=fromD(asD(c,32),64); break; } R[in.dst]=VC(r); fr->pc++; break; }
        case OP_LOAD: { Val a=G(in.a); Val v=a.e?loadSymAddr(a.e,in.bits):load(a.c,in.bits); R[in.dst]=v; fr->pc++; break; }
        case OP_STORE: { Val a=G(in.a); u64 ad=conc(a); store(ad,in.bits,G(in.b)); fr->pc++; break; }
        case OP_LOADN: { u64 ad=conc(G(in.a)); auto& lv=f->leaves[in.x]; for(size_t i=0;i<lv.size();i++) R[in.dst+i]=load(ad+lv[i].off,lv[i].bits); fr->pc++; break; }
        case OP_STOREN: { u64 ad=conc(G(in.a)); auto& lv=f->leaves[in.x]; for(size_t i=0;i<lv.size();i++){ int s=in.b+(int)i; store(ad+lv[i].off,lv[i].bits,G(s)); } fr->pc++; break; }
        case OP_GEP: { Val a=G(in.a); if(in.sub==0){ if(!a.e) R[in.dst]=VC(a.c+in.imm); else R[in.dst]=mkV(X.bin(K_ADD,a.e,X.c(in.imm,64))); } else { u64 c=a.c+in.imm; E e=a.e?X.bin(K_ADD,a.e,X.c(in.imm,64)):nullptr; for(auto& g:f->geps[in.x]){ Val i=G(g.slot); if(!i.e){ u64 o=(u64)sx(i.c,g.bits)*g.scale; if(e) e=X.bin(K_ADD,e,X.c(o,64)); else c+=o; } else { E o=X.bin(K_MUL,X.sext(i.e,64),X.c(g.scale,64)); e=e?X.bin(K_ADD,e,o):X.bin(K_ADD,o,X.c(c,64)); } } R[in.dst]=e?mkV(e):VC(c); } fr->pc++; break; }
        case OP_ALLOCA: { u64 n=in.imm; if(in.a>=0) n*=conc(G(in.a)); if(n>(16u<<20)) memError("stack allocation too large"); u64 p=stackAlloc(n?n:1,in.x); R[in.dst]=VC(p); fr->pc++; break; }
        case OP_BR: takeEdge(f,R,in.a); break;
        case OP_CBR: { Val c=G(in.a); bool t=c.e?decide(c.e):(c.c&1); takeEdge(f,R,t?in.b:in.c); break; }
        case OP_SWITCH: { Val c=G(in.a); auto& si=f->switches[in.x]; if(!c.e){ int ed=si.def; for(auto& p:si.cases) if(p.first==c.c){ ed=p.second; break; } takeEdge(f,R,ed); }
          else { std::vector<int> order; std::map<int,E> g; for(auto& p:si.cases){ E q=X.bin(K_EQ,c.e,X.c(p.first,in.bits)); auto it=g.find(p.second); if(it==g.end()){ g[p.second]=q; order.push_back(p.second); } else it->second=X.bin(K_OR,it->second,q); } int ed=si.def; for(int o:order) if(o!=si.def&&decide(g[o])){ ed=o; break; } takeEdge(f,R,ed); } break; }
        case OP_SELECT: { Val c=G(in.a); if(!c.e) R[in.dst]=(c.c&1)?G(in.b):G(in.c); else { Val t=G(in.b),e=G(in.c); if(!t.e&&!e.e&&t.c==e.c) R[in.dst]=t; else if(int k=known(c.e)) R[in.dst]=k==1?t:e; else if(in.bits==64) R[in.dst]=decide(c.e)?t:e; else R[in.dst]=mkV(X.ite(c.e,toE(t,in.bits),toE(e,in.bits))); } fr->pc++; break; }
        case OP_MOVES: { auto& mv=f->moves[in.x]; for(auto& m:mv) R[m.dst]=G(m.src); fr->pc++; break; }
        case OP_CALL: doCall(in); goto reframe;
        case OP_RET: { Val tmp[8]; int n=in.x>8?8:in.x; for(int i=0;i<n;i++){ int s=in.a+i; tmp[i]=G(s); } doRet(tmp,n); goto reframe; }
        case OP_RESUME: { u64 obj=conc(G(in.a)); int ix=-1; for(size_t i=0;i<st.excs.size();i++) if(st.excs[i].obj==obj) ix=i; popFrame(); if(ix<0) throw Inconclusive{"resume of unknown exception"}; resumeUnwind(ix); goto reframe; }
        case OP_UNREACH: memError("unreachable instruction executed (undefined behaviour)");
        case OP_RMW: { u64 ad=conc(G(in.a)); Val old=load(ad,in.bits), v=G(in.b); Val nv; if(in.sub==255) nv=v; else if(!old.e&&!v.e) nv=VC(cbin(in.sub,in.bits,old.c,v.c)); else nv=mkV(X.bin((Kind)in.sub,toE(old,in.bits),toE(v,in.bits))); store(ad,in.bits,nv); R[in.dst]=old; fr->pc++; break; }
        default: throw Inconclusive{"unsupported instruction in "+f->name+" line "+std::to_string(in.line)};
      }
    }
    reframe:;
  } }
void Engine::run(Func* entry){
  for(Func* f:ctorList()){ try { pushFrame(f,nullptr,0,nullptr); loop(); } catch(PathEnd& p){ if(strcmp(p.why,"done")){ fprintf(stderr,"static constructor ended: %s\n",p.why); exit(2);} } catch(Inconclusive& i){ fprintf(stderr,"static constructor %s: %s\n%s\n",f->name.c_str(),i.why.c_str(),backtrace().c_str()); exit(2); } st.fr.clear(); st.R.clear(); }
  pid_t root=getpid(); prctl(PR_SET_CHILD_SUBREAPER,1); sh->active=1; sh->paths=1;
  pushFrame(entry,nullptr,0,nullptr); bool more=true; int ec=0;
  try { while(more){
    try { loop(); } 
    catch(PathEnd& p){ if(!strcmp(p.why,"forked")) continue; if(!symPhase&&strcmp(p.why,"done")){ fprintf(stderr,"set-up ended: %s\n",p.why); exit(2);} if(strcmp(p.why,"stopped")){ u64 k=++sh->ended; if(symPhase&&!strcmp(p.why,"done")&&(k&(k-1))==0) sample(); } }
    catch(Inconclusive& i){ if(!symPhase){ fprintf(stderr,"set-up: %s\n%s\n",i.why.c_str(),backtrace().c_str()); exit(2);} sh->inconcl++; sh->incomplete=1; auto* l=label("INCONCLUSIVE "+i.why); if(++l->n<=3&&verbose) fprintf(stderr,"inconclusive: %s\n  at %s\n",i.why.c_str(),backtrace().c_str()); }
    if(sh->stop){ if(!cps.empty()) sh->incomplete=1; more=false; break; }
    more=backtrack(); if(more){ static unsigned k=0; if((++k&7)==0){ try{ maybeShare(); } catch(PathEnd&){} } }
  } } catch(std::exception& e){ if(verbose) fprintf(stderr,"worker: %s\n",e.what()); sh->incomplete=1; ec=0; auto* l=label(std::string("INCONCLUSIVE worker: ")+e.what()); l->n++; }
  flushStats(true); sh->active--;
  if(getpid()!=root) _exit(ec);
  for(;;){ int stt; pid_t p=waitpid(-1,&stt,0); if(p<0){ if(errno==EINTR) continue; break; } if(WIFSIGNALED(stt)||(WIFEXITED(stt)&&WEXITSTATUS(stt))){ sh->crashed++; sh->incomplete=1; fprintf(stderr,"worker ended with status %x\n",stt); } }
}
