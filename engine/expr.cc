#include "expr.h"
#include <z3.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <time.h>
Exprs X; 
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

E Exprs::mk(Kind k,int w,E a,E b,E cc,u64 cv,u32 aux,const std::vector<u64>* tab,VarSet vs){
  Key key{k,(uint8_t)w,aux,a,b,cc,cv,tab};
  auto it=cons.find(key); if(it!=cons.end()) return it->second;
  Expr* e=new Expr(); e->k=k;e->w=w;e->aux=aux;e->a[0]=a;e->a[1]=b;e->a[2]=cc;e->cv=cv;e->tab=tab;e->vars=vs;e->epoch=0;e->z=nullptr;e->id=nnodes++;
  cons.emplace(key,e); return e; }
E Exprs::c(u64 v,int w){ return mk(K_CONST,w,0,0,0,v&maskw(w),0,0,VarSet{{0,0}}); }
const std::vector<u64>* Exprs::internTab(std::vector<u64>&& v){ auto it=tabs.find(&v); if(it!=tabs.end()) return it->second;
  auto* p=new std::vector<u64>(std::move(v)); tabs.emplace(p,p); return p; }
E Exprs::newVar(const std::string& name,int w,const std::vector<u64>* dom){
  int id=vars.size(); if(id>=MAXVARS){ fprintf(stderr,"too many symbolic variables\n"); abort(); }
  Var v; v.name=name; v.w=w; v.limited=dom!=nullptr; if(dom) v.dom=*dom;
  VarSet vs{}; vs.w[id>>6]|=1ull<<(id&63);
  const std::vector<u64>* tab=nullptr; if(dom) tab=internTab(std::vector<u64>(*dom));
  vars.push_back(v);
  E e=mk(K_VAR,w,0,0,0,0,id,tab,vs); vars[id].e=e; return e; }
E Exprs::table(int var,int w,std::vector<u64>&& vals){
  u64 m=maskw(w); bool all=true; for(auto&x:vals){x&=m; if(x!=vals[0]) all=false;}
  if(all) return c(vals[0],w);
  if(w==vars[var].w && vals==vars[var].dom) return vars[var].e;
  auto* t=internTab(std::move(vals)); VarSet vs{}; vs.w[var>>6]|=1ull<<(var&63);
  return mk(K_TABLE,w,0,0,0,0,var,t,vs); }
int Exprs::tabVar(E a,E b,E cc){ VarSet vs=a->vars; if(b) vs.add(b->vars); if(cc) vs.add(cc->vars);
  int v=vs.single(); if(v<0||!vars[v].limited) return -1;
  auto ok=[&](E e){return !e||e->k==K_CONST||e->tab;}; if(!ok(a)||!ok(b)||!ok(cc)) return -1; return v; }
u64 Exprs::apply(Kind k,int w,u64 x,u64 y,int aw){ u64 m=maskw(aw);
  switch(k){ case K_ADD: return (x+y)&m; case K_SUB: return (x-y)&m; case K_MUL: return (x*y)&m;
   case K_UDIV: return y?x/y:m; case K_UREM: return y?x%y:x;
   case K_SDIV: { i64 p=sx(x,aw),q=sx(y,aw); if(!q) return p<0?1:m; if(q==-1) return (0-x)&m; return (u64)(p/q)&m; }
   case K_SREM: { i64 p=sx(x,aw),q=sx(y,aw); if(!q) return x; if(q==-1) return 0; return (u64)(p%q)&m; }
   case K_AND: return x&y; case K_OR: return x|y; case K_XOR: return x^y;
   case K_SHL: return y>=(u64)aw?0:(x<<y)&m; case K_LSHR: return y>=(u64)aw?0:x>>y;
   case K_ASHR: return (u64)(sx(x,aw)>>(y>=(u64)aw?aw-1:y))&m;
   case K_EQ: return x==y; case K_ULT: return x<y; case K_ULE: return x<=y;
   case K_SLT: return sx(x,aw)<sx(y,aw); case K_SLE: return sx(x,aw)<=sx(y,aw);
   default: abort(); } }
static bool isCmp(Kind k){ return k>=K_EQ&&k<=K_SLE; }
E Exprs::bin(Kind k,E a,E b){
  if(a->w!=b->w){ fprintf(stderr,"width mismatch kind %d: %d %d\n",k,a->w,b->w); abort(); }
  int w=isCmp(k)?1:a->w;
  if(a->k==K_CONST&&b->k==K_CONST) return c(apply(k,w,a->cv,b->cv,a->w),w);
  int tv=tabVar(a,b,nullptr);
  if(tv>=0){ size_t n=vars[tv].dom.size(); std::vector<u64> r(n); for(size_t i=0;i<n;i++) r[i]=apply(k,w,kidVal(a,i),kidVal(b,i),a->w); return table(tv,w,std::move(r)); }
  // commutative: const on the right, otherwise order by id
  bool comm=k==K_ADD||k==K_MUL||k==K_AND||k==K_OR||k==K_XOR||k==K_EQ;
  if(comm&&(a->k==K_CONST||(b->k!=K_CONST&&a->id>b->id))) std::swap(a,b);
  u64 m=maskw(a->w);
  if(b->k==K_CONST){ u64 v=b->cv;
    switch(k){
      case K_ADD: if(!v) return a; if(a->k==K_ADD&&a->a[1]->k==K_CONST) return bin(K_ADD,a->a[0],c(a->a[1]->cv+v,a->w)); break;
      case K_SUB: if(!v) return a; return bin(K_ADD,a,c(0-v,a->w));
      case K_MUL: if(!v) return b; if(v==1) return a; if(!(v&(v-1))) return bin(K_SHL,a,c(__builtin_ctzll(v),a->w)); break;
      case K_UDIV: if(v==1) return a; if(v&&!(v&(v-1))) return bin(K_LSHR,a,c(__builtin_ctzll(v),a->w)); break;
      case K_UREM: if(v&&!(v&(v-1))) return bin(K_AND,a,c(v-1,a->w)); break;
      case K_AND: if(!v) return b; if(v==m) return a;
        if(a->k==K_ZEXT&&(v&maskw(a->a[0]->w))==maskw(a->a[0]->w)) return a;
        if(a->k==K_AND&&a->a[1]->k==K_CONST) return bin(K_AND,a->a[0],c(a->a[1]->cv&v,a->w));
        if(((v+1)&v)==0&&v!=m){ int n=__builtin_popcountll(v); return zext(extract(a,0,n),a->w); } break;
      case K_OR: if(!v) return a; if(v==m) return b; break;
      case K_XOR: if(!v) return a;
        if(a->w==1&&v==1){ if(a->k==K_XOR&&a->a[1]->k==K_CONST) return a->a[0];
          if(a->k==K_ULT) return bin(K_ULE,a->a[1],a->a[0]); if(a->k==K_ULE) return bin(K_ULT,a->a[1],a->a[0]);
          if(a->k==K_SLT) return bin(K_SLE,a->a[1],a->a[0]); if(a->k==K_SLE) return bin(K_SLT,a->a[1],a->a[0]); }
        break;
      case K_SHL: if(!v) return a; if(v>=a->w) return c(0,a->w); return concat(extract(a,0,a->w-v),c(0,v));
      case K_LSHR: if(!v) return a; if(v>=a->w) return c(0,a->w); return zext(extract(a,v,a->w-v),a->w);
      case K_ASHR: if(!v) return a; { u64 s=v>=a->w?a->w-1:v; return sext(extract(a,s,a->w-s),a->w);}
      case K_EQ:
        if(a->w==1) return v?a:lnot(a);
        if(a->k==K_ZEXT){ if(v&~maskw(a->a[0]->w)) return c(0,1); return bin(K_EQ,a->a[0],c(v,a->a[0]->w)); }
        if(a->k==K_SEXT){ u64 t=v&maskw(a->a[0]->w); if(((u64)sx(t,a->a[0]->w)&m)!=v) return c(0,1); return bin(K_EQ,a->a[0],c(t,a->a[0]->w)); }
        if(a->k==K_CONCAT){ int lw=a->a[1]->w; return bin(K_AND,bin(K_EQ,a->a[0],c(v>>lw,a->a[0]->w)),bin(K_EQ,a->a[1],c(v,lw))); }
        if(a->k==K_ADD&&a->a[1]->k==K_CONST) return bin(K_EQ,a->a[0],c(v-a->a[1]->cv,a->w));
        if(a->k==K_XOR&&a->a[1]->k==K_CONST) return bin(K_EQ,a->a[0],c(v^a->a[1]->cv,a->w));
        if(a->k==K_ITE&&(a->a[1]->k==K_CONST||a->a[2]->k==K_CONST)) return ite(a->a[0],bin(K_EQ,a->a[1],b),bin(K_EQ,a->a[2],b));
        break;
      case K_ULT: if(!v) return c(0,1); if(v==1) return bin(K_EQ,a,c(0,a->w));
        if(a->k==K_ZEXT){ int iw=a->a[0]->w; if(v>maskw(iw)) return c(1,1); return bin(K_ULT,a->a[0],c(v,iw)); } break;
      case K_ULE: if(v==m) return c(1,1); if(!v) return bin(K_EQ,a,b);
        if(a->k==K_ZEXT){ int iw=a->a[0]->w; if(v>=maskw(iw)) return c(1,1); return bin(K_ULE,a->a[0],c(v,iw)); } break;
      case K_SLT: case K_SLE: if(a->k==K_ZEXT){ i64 s=sx(v,a->w); if(s<0) return c(0,1); return bin(k==K_SLT?K_ULT:K_ULE,a,b);} 
        if(a->k==K_SEXT){ int iw=a->a[0]->w; i64 s=sx(v,a->w); i64 mx=(i64)(maskw(iw)>>1), mn=-mx-1;
          if(k==K_SLT){ if(s>mx) return c(1,1); if(s<=mn) return c(0,1);} else { if(s>=mx) return c(1,1); if(s<mn) return c(0,1);} 
          return bin(k,a->a[0],c((u64)s,iw)); } break;
      default: break; }
  }
  if(a->k==K_CONST){ u64 v=a->cv;
    if(k==K_ULT){ if(v==m) return c(0,1); if(b->k==K_ZEXT){int iw=b->a[0]->w; if(v>=maskw(iw)) return c(0,1); return bin(K_ULT,c(v,iw),b->a[0]);} }
    if(k==K_ULE){ if(!v) return c(1,1); if(b->k==K_ZEXT){int iw=b->a[0]->w; if(v>maskw(iw)) return c(0,1); return bin(K_ULE,c(v,iw),b->a[0]);} }
    if((k==K_SLT||k==K_SLE)&&b->k==K_ZEXT){ i64 s=sx(v,a->w); if(s<0) return c(1,1); return bin(k==K_SLT?K_ULT:K_ULE,a,b); }
    if((k==K_SHL||k==K_LSHR)&&!v) return a;
  }
  if(a==b) switch(k){ case K_SUB: case K_XOR: return c(0,w); case K_AND: case K_OR: return a; case K_EQ: case K_ULE: case K_SLE: return c(1,1); case K_ULT: case K_SLT: return c(0,1); default: break; }
  if(k==K_OR||k==K_ADD||k==K_XOR){ // zext(lo) | (x<<n)
    E p=a,q=b; for(int t=0;t<2;t++,std::swap(p,q)) if(p->k==K_ZEXT&&q->k==K_CONCAT&&q->a[1]->k==K_CONST&&!q->a[1]->cv&&p->a[0]->w<=q->a[1]->w) return concat(q->a[0],zext(p->a[0],q->a[1]->w)); }
  if((k==K_EQ)&&a->k==K_ZEXT&&b->k==K_ZEXT&&a->a[0]->w==b->a[0]->w) return bin(K_EQ,a->a[0],b->a[0]);
  if((k==K_ULT||k==K_ULE)&&a->k==K_ZEXT&&b->k==K_ZEXT&&a->a[0]->w==b->a[0]->w) return bin(k,a->a[0],b->a[0]);
  if((k==K_SLT||k==K_SLE)&&a->k==K_ZEXT&&b->k==K_ZEXT) return bin(k==K_SLT?K_ULT:K_ULE,a,b);
  VarSet vs=a->vars; vs.add(b->vars);
  return mk(k,w,a,b,0,0,0,0,vs); }
E Exprs::lnot(E a){ return bin(K_XOR,a,c(1,1)); }
E Exprs::zext(E a,int w){ if(a->w==w) return a; if(a->k==K_CONST) return c(a->cv,w);
  int tv=tabVar(a,0,0); if(tv>=0){ std::vector<u64> r=*a->tab; return table(tv,w,std::move(r)); }
  if(a->k==K_ZEXT) return zext(a->a[0],w); return mk(K_ZEXT,w,a,0,0,0,0,0,a->vars); }
E Exprs::sext(E a,int w){ if(a->w==w) return a; if(a->k==K_CONST) return c((u64)sx(a->cv,a->w),w);
  int tv=tabVar(a,0,0); if(tv>=0){ std::vector<u64> r=*a->tab; for(auto&x:r) x=(u64)sx(x,a->w); return table(tv,w,std::move(r)); }
  if(a->k==K_ZEXT) return zext(a->a[0],w); if(a->k==K_SEXT) return sext(a->a[0],w); return mk(K_SEXT,w,a,0,0,0,0,0,a->vars); }
E Exprs::extract(E a,int lo,int w){ if(lo==0&&w==a->w) return a; if(a->k==K_CONST) return c(a->cv>>lo,w);
  int tv=tabVar(a,0,0); if(tv>=0){ std::vector<u64> r=*a->tab; for(auto&x:r) x=(x>>lo)&maskw(w); return table(tv,w,std::move(r)); }
  switch(a->k){ case K_EXTRACT: return extract(a->a[0],a->aux+lo,w);
    case K_CONCAT: { int lw=a->a[1]->w; if(lo+w<=lw) return extract(a->a[1],lo,w); if(lo>=lw) return extract(a->a[0],lo-lw,w);
      return concat(extract(a->a[0],0,lo+w-lw),extract(a->a[1],lo,lw-lo)); }
    case K_ZEXT: { int iw=a->a[0]->w; if(lo>=iw) return c(0,w); if(lo+w<=iw) return extract(a->a[0],lo,w); return zext(extract(a->a[0],lo,iw-lo),w); }
    case K_SEXT: { int iw=a->a[0]->w; if(lo+w<=iw) return extract(a->a[0],lo,w); if(lo<iw) return sext(extract(a->a[0],lo,iw-lo),w); return sext(extract(a->a[0],iw-1,1),w);} 
    case K_ITE: if(a->a[1]->k==K_CONST||a->a[2]->k==K_CONST||a->a[1]->k==K_ITE||a->a[2]->k==K_ITE||w<=8) return ite(a->a[0],extract(a->a[1],lo,w),extract(a->a[2],lo,w)); break;
    case K_AND: case K_OR: case K_XOR: return bin(a->k,extract(a->a[0],lo,w),extract(a->a[1],lo,w));
    case K_ADD: case K_SUB: case K_MUL: if(lo==0) return bin(a->k,extract(a->a[0],0,w),extract(a->a[1],0,w)); break;
    default: break; }
  return mk(K_EXTRACT,w,a,0,0,0,lo,0,a->vars); }
E Exprs::concat(E hi,E lo){ int w=hi->w+lo->w; if(hi->k==K_CONST&&lo->k==K_CONST) return c((hi->cv<<lo->w)|lo->cv,w);
  int tv=tabVar(hi,lo,0); if(tv>=0){ size_t n=vars[tv].dom.size(); std::vector<u64> r(n); for(size_t i=0;i<n;i++) r[i]=(kidVal(hi,i)<<lo->w)|kidVal(lo,i); return table(tv,w,std::move(r)); }
  if(hi->k==K_CONST&&hi->cv==0) return zext(lo,w);
  if(hi->k==K_EXTRACT&&lo->k==K_EXTRACT&&hi->a[0]==lo->a[0]&&hi->aux==lo->aux+lo->w) return extract(lo->a[0],lo->aux,w);
  if(hi->k==K_EXTRACT&&hi->a[0]==lo&&hi->aux==(u32)lo->w) return extract(lo,0,w);
  if(lo->k==K_CONCAT&&hi->k==K_EXTRACT&&lo->a[0]->k==K_EXTRACT&&hi->a[0]==lo->a[0]->a[0]&&hi->aux==lo->a[0]->aux+lo->a[0]->w) return concat(concat(hi,lo->a[0]),lo->a[1]);
  if(hi->k==K_ITE&&lo->k==K_ITE&&hi->a[0]==lo->a[0]) return ite(hi->a[0],concat(hi->a[1],lo->a[1]),concat(hi->a[2],lo->a[2]));
  if(hi->k==K_ITE&&lo->k==K_CONST) return ite(hi->a[0],concat(hi->a[1],lo),concat(hi->a[2],lo));
  if(lo->k==K_ZEXT&&hi->k!=K_CONST){ /* keep */ }
  VarSet vs=hi->vars; vs.add(lo->vars); return mk(K_CONCAT,w,hi,lo,0,0,0,0,vs); }
E Exprs::ite(E cnd,E t,E f){ if(cnd->k==K_CONST) return cnd->cv?t:f; if(t==f) return t;
  int tv=tabVar(cnd,t,f); if(tv>=0){ size_t n=vars[tv].dom.size(); std::vector<u64> r(n); for(size_t i=0;i<n;i++) r[i]=kidVal(cnd,i)?kidVal(t,i):kidVal(f,i); return table(tv,t->w,std::move(r)); }
  if(t->w==1){ if(t->k==K_CONST) return t->cv?bin(K_OR,cnd,f):bin(K_AND,lnot(cnd),f); if(f->k==K_CONST) return f->cv?bin(K_OR,lnot(cnd),t):bin(K_AND,cnd,t); }
  if(cnd->k==K_XOR&&cnd->a[1]->k==K_CONST) return ite(cnd->a[0],f,t);
  VarSet vs=cnd->vars; vs.add(t->vars); vs.add(f->vars); return mk(K_ITE,t->w,cnd,t,f,0,0,0,vs); }
u64 Exprs::evalRec(E e,const Model& m){
  if(e->k==K_CONST) return e->cv;
  if(e->epoch==epoch) return e->ev; u64 r;
  switch(e->k){
    case K_VAR: r=m.v[e->aux]; break;
    case K_TABLE: { const Var& v=vars[e->aux]; u64 x=m.v[e->aux]; r=0;
      auto it=std::lower_bound(v.dom.begin(),v.dom.end(),x); if(it!=v.dom.end()&&*it==x) r=(*e->tab)[it-v.dom.begin()]; else { fprintf(stderr,"model value outside domain\n"); abort(); } break; }
    case K_ZEXT: r=evalRec(e->a[0],m); break;
    case K_SEXT: r=(u64)sx(evalRec(e->a[0],m),e->a[0]->w)&maskw(e->w); break;
    case K_EXTRACT: r=(evalRec(e->a[0],m)>>e->aux)&maskw(e->w); break;
    case K_CONCAT: r=(evalRec(e->a[0],m)<<e->a[1]->w)|evalRec(e->a[1],m); break;
    case K_ITE: r=evalRec(e->a[0],m)?evalRec(e->a[1],m):evalRec(e->a[2],m); break;
    default: r=apply(e->k,e->w,evalRec(e->a[0],m),evalRec(e->a[1],m),e->a[0]->w); }
  e->epoch=epoch; e->ev=r; return r; }
u64 Exprs::eval(E e,const Model& m){ return evalRec(e,m); }
std::string Exprs::str(E e,int d){ static const char* n[]={"const","var","table","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","zext","sext","extract","concat","==","<u","<=u","<s","<=s","ite"};
  if(e->k==K_CONST) return std::to_string(e->cv); if(e->k==K_VAR) return vars[e->aux].name; if(d==0) return "...";
  if(e->k==K_TABLE){ std::string s="T("+vars[e->aux].name+":"; if(e->w==1){ for(size_t i=0;i<e->tab->size();i++) if((*e->tab)[i]) {u64 v=vars[e->aux].dom[i]; s+= v>32&&v<127?std::string(1,(char)v):"<"+std::to_string(v)+">";} } else s+="..."; return s+")"; }
  std::string s="("; s+=n[e->k]; for(int i=0;i<3&&e->a[i];i++) s+=" "+str(e->a[i],d-1); return s+")"; }

// ---------------------------------------------------------------- solver
Solver S;
static void zerr(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); abort(); }
Solver::Solver(){ ctx=nullptr; slv=nullptr; }
void Solver::reinit(){ Z3_config cfg=Z3_mk_config(); Z3_context c=Z3_mk_context(cfg); Z3_del_config(cfg); ctx=c; Z3_set_error_handler(c,zerr);
  Z3_solver s=Z3_mk_simple_solver(c); Z3_solver_inc_ref(c,s); Z3_params p=Z3_mk_params(c); Z3_params_inc_ref(c,p); Z3_params_set_uint(c,p,Z3_mk_string_symbol(c,"timeout"),timeoutMs); Z3_solver_set_params(c,s,p); slv=s; }
void* Solver::tr(E e){ if(e->z) return e->z; Z3_context c=(Z3_context)ctx; Z3_ast r=nullptr; auto B=[&](E x){return (Z3_ast)tr(x);};
  // width-1 expressions are z3 Bool; others BitVec
  auto bv1=[&](E x)->Z3_ast{ Z3_ast a=B(x); if(x->w==1){ Z3_sort s=Z3_mk_bv_sort(c,1); return Z3_mk_ite(c,a,Z3_mk_unsigned_int64(c,1,s),Z3_mk_unsigned_int64(c,0,s)); } return a; };
  auto num=[&](u64 v,int w)->Z3_ast{ return Z3_mk_unsigned_int64(c,v,Z3_mk_bv_sort(c,w)); };
  auto tobool=[&](Z3_ast a)->Z3_ast{ return Z3_mk_eq(c,a,num(1,1)); };
  switch(e->k){
    case K_CONST: r=e->w==1?(e->cv?Z3_mk_true(c):Z3_mk_false(c)):num(e->cv,e->w); break;
    case K_VAR: { Z3_ast v=Z3_mk_const(c,Z3_mk_string_symbol(c,("v"+std::to_string(e->aux)).c_str()),Z3_mk_bv_sort(c,e->w)); r=e->w==1?tobool(v):v; break; }
    case K_TABLE: { const Var& v=X.vars[e->aux]; Z3_ast x=(Z3_ast)tr(v.e); if(v.w==1) x=bv1(v.e);
      auto inset=[&](const std::vector<bool>& in)->Z3_ast{ std::vector<Z3_ast> ors; size_t n=in.size(); for(size_t i=0;i<n;){ if(!in[i]){i++;continue;} size_t j=i; while(j+1<n&&in[j+1]&&v.dom[j+1]==v.dom[j]+1) j++;
          if(i==j) ors.push_back(Z3_mk_eq(c,x,num(v.dom[i],v.w))); else { Z3_ast q[2]={Z3_mk_bvule(c,num(v.dom[i],v.w),x),Z3_mk_bvule(c,x,num(v.dom[j],v.w))}; ors.push_back(Z3_mk_and(c,2,q)); } i=j+1; }
        if(ors.empty()) return Z3_mk_false(c); return ors.size()==1?ors[0]:Z3_mk_or(c,ors.size(),ors.data()); };
      size_t n=e->tab->size();
      if(e->w==1){ std::vector<bool> in(n); for(size_t i=0;i<n;i++) in[i]=(*e->tab)[i]; r=inset(in); }
      else { std::map<u64,std::vector<bool>> g; for(size_t i=0;i<n;i++){ auto& b=g[(*e->tab)[i]]; if(b.empty()) b.resize(n); b[i]=true; }
        bool first=true; for(auto& kv:g){ if(first){ r=num(kv.first,e->w); first=false; } else r=Z3_mk_ite(c,inset(kv.second),num(kv.first,e->w),r); } }
      break; }
    case K_ZEXT: r=Z3_mk_zero_ext(c,e->w-e->a[0]->w,bv1(e->a[0])); break;
    case K_SEXT: r=Z3_mk_sign_ext(c,e->w-e->a[0]->w,bv1(e->a[0])); break;
    case K_EXTRACT: r=Z3_mk_extract(c,e->aux+e->w-1,e->aux,B(e->a[0])); if(e->w==1) r=tobool(r); break;
    case K_CONCAT: r=Z3_mk_concat(c,bv1(e->a[0]),bv1(e->a[1])); break;
    case K_ITE: r=Z3_mk_ite(c,B(e->a[0]),B(e->a[1]),B(e->a[2])); break;
    case K_EQ: r=Z3_mk_eq(c,B(e->a[0]),B(e->a[1])); break;
    case K_ULT: r=Z3_mk_bvult(c,bv1(e->a[0]),bv1(e->a[1])); break; case K_ULE: r=Z3_mk_bvule(c,bv1(e->a[0]),bv1(e->a[1])); break;
    case K_SLT: r=Z3_mk_bvslt(c,bv1(e->a[0]),bv1(e->a[1])); break; case K_SLE: r=Z3_mk_bvsle(c,bv1(e->a[0]),bv1(e->a[1])); break;
    default: {
      if(e->w==1){ Z3_ast q[2]={B(e->a[0]),B(e->a[1])};
        switch(e->k){ case K_AND: case K_MUL: r=Z3_mk_and(c,2,q); break; case K_OR: r=Z3_mk_or(c,2,q); break; case K_XOR: case K_ADD: case K_SUB: if(e->a[1]->k==K_CONST&&e->a[1]->cv) r=Z3_mk_not(c,q[0]); else r=Z3_mk_xor(c,q[0],q[1]); break; default: fprintf(stderr,"bad 1-bit op %d\n",e->k); abort(); } break; }
      Z3_ast a=B(e->a[0]),b=B(e->a[1]);
      switch(e->k){ case K_ADD:r=Z3_mk_bvadd(c,a,b);break; case K_SUB:r=Z3_mk_bvsub(c,a,b);break; case K_MUL:r=Z3_mk_bvmul(c,a,b);break;
        case K_UDIV:r=Z3_mk_bvudiv(c,a,b);break; case K_SDIV:r=Z3_mk_bvsdiv(c,a,b);break; case K_UREM:r=Z3_mk_bvurem(c,a,b);break; case K_SREM:r=Z3_mk_bvsrem(c,a,b);break;
        case K_AND:r=Z3_mk_bvand(c,a,b);break; case K_OR:r=Z3_mk_bvor(c,a,b);break; case K_XOR:r=Z3_mk_bvxor(c,a,b);break;
        case K_SHL:r=Z3_mk_bvshl(c,a,b);break; case K_LSHR:r=Z3_mk_bvlshr(c,a,b);break; case K_ASHR:r=Z3_mk_bvashr(c,a,b);break; default: abort(); } } }
  e->z=r; return r; }
int Solver::check(const std::vector<E>& cs0,Model* m){
  std::vector<E> cs; for(E e:cs0){ if(e->k==K_CONST){ if(!e->cv) return 0; continue; } cs.push_back(e); }
  std::sort(cs.begin(),cs.end(),[](E a,E b){return a->id<b->id;}); cs.erase(std::unique(cs.begin(),cs.end()),cs.end());
  if(cs.empty()) return 1;
  std::string key; key.reserve(cs.size()*4); for(E e:cs) key.append((const char*)&e->id,4);
  auto it=cache.find(key);
  if(it!=cache.end()){ cacheHits++; if(it->second.first==1&&m) for(auto&p:it->second.second) m->v[p.first]=p.second; return it->second.first; }
  if(!ctx) reinit();
  Z3_context c=(Z3_context)ctx; Z3_solver s=(Z3_solver)slv; double t0=now(); queries++;
  Z3_solver_push(c,s); VarSet vs{}; for(E e:cs){ Z3_solver_assert(c,s,(Z3_ast)tr(e)); vs.add(e->vars); }
  // domains of the limited variables involved
  for(size_t i=0;i<X.vars.size();i++) if(vs.has(i)&&X.vars[i].limited){ const Var& v=X.vars[i]; if(v.w==1) continue;
      std::vector<Z3_ast> ors; Z3_ast x=(Z3_ast)tr(v.e); size_t n=v.dom.size(); auto num=[&](u64 q){return Z3_mk_unsigned_int64(c,q,Z3_mk_bv_sort(c,v.w));};
      for(size_t a=0;a<n;){ size_t b=a; while(b+1<n&&v.dom[b+1]==v.dom[b]+1) b++; if(a==b) ors.push_back(Z3_mk_eq(c,x,num(v.dom[a]))); else { Z3_ast q[2]={Z3_mk_bvule(c,num(v.dom[a]),x),Z3_mk_bvule(c,x,num(v.dom[b]))}; ors.push_back(Z3_mk_and(c,2,q)); } a=b+1; }
      Z3_solver_assert(c,s,ors.size()==1?ors[0]:Z3_mk_or(c,ors.size(),ors.data())); }
  Z3_lbool r=Z3_solver_check(c,s); int res=r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1;
  std::vector<std::pair<int,u64>> mv;
  if(res==1){ sat++; Z3_model zm=Z3_solver_get_model(c,s); Z3_model_inc_ref(c,zm);
    for(size_t i=0;i<X.vars.size();i++) if(vs.has(i)){ Z3_ast val; Z3_ast v=(Z3_ast)tr(X.vars[i].e); u64 x=0;
      if(Z3_model_eval(c,zm,v,true,&val)){ if(X.vars[i].w==1){ x=Z3_get_bool_value(c,val)==Z3_L_TRUE; } else { uint64_t t=0; Z3_get_numeral_uint64(c,val,&t); x=t; } }
      mv.push_back({(int)i,x}); }
    Z3_model_dec_ref(c,zm); }
  else if(res==0) unsat++; else unknown++;
  Z3_solver_pop(c,s,1); double dt=now()-t0; time+=dt; if(dt>maxTime) maxTime=dt; static bool ql=getenv("SYMX_QLOG"); if(ql&&dt>0.003){ fprintf(stderr,"[q %.4f res %d] ",dt,res); for(E e:cs) fprintf(stderr,"%s && ",X.str(e).substr(0,200).c_str()); fprintf(stderr,"\n"); }
  if(m&&res==1) for(auto&p:mv) m->v[p.first]=p.second;
  cache.emplace(std::move(key),std::make_pair(res,std::move(mv)));
  return res; }
