// Symbolic expression DAG with hash-consing, finite-domain tabulation and z3 translation.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>
#include <set>
#include <memory>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef unsigned __int128 u128;

enum Kind : uint8_t { K_CONST, K_VAR, K_TABLE,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE };

static const int MAXVARS=512;
struct VarSet { u64 w[MAXVARS/64]; bool empty() const { u64 r=0; for(u64 x:w) r|=x; return !r; }
  bool meets(const VarSet& o) const { for(int i=0;i<MAXVARS/64;i++) if(w[i]&o.w[i]) return true; return false; }
  void add(const VarSet& o){ for(int i=0;i<MAXVARS/64;i++) w[i]|=o.w[i]; }
  bool subset(const VarSet& o) const { for(int i=0;i<MAXVARS/64;i++) if(w[i]&~o.w[i]) return false; return true; }
  bool has(int i) const { return (w[i>>6]>>(i&63))&1; }
  int single() const { int r=-1; for(int i=0;i<MAXVARS/64;i++) if(w[i]){ if(r>=0||(w[i]&(w[i]-1))) return -1; r=i*64+__builtin_ctzll(w[i]); } return r; }
  bool operator==(const VarSet&o)const{ for(int i=0;i<MAXVARS/64;i++) if(w[i]!=o.w[i]) return false; return true; } };

struct Expr {
  Kind k; uint8_t w; u32 id; u32 aux; // aux: extract low bit / var id
  const Expr* a[3];
  u64 cv;            // constant value
  VarSet vars;
  const std::vector<u64>* tab; // K_TABLE (and limited K_VAR): values over the var's domain
  mutable u64 ev; mutable u32 epoch;
  mutable void* z; // Z3_ast
};
typedef const Expr* E;

struct Var { std::string name; int w; std::vector<u64> dom; bool limited; E e; };

inline u64 maskw(int w){ return w>=64?~0ull:((1ull<<w)-1); }
inline i64 sx(u64 v,int w){ if(w>=64) return (i64)v; u64 m=1ull<<(w-1); v&=maskw(w); return (i64)((v^m)-m); }

struct Model { std::vector<u64> v; };   // value per var

struct Exprs {
  std::vector<Var> vars;
  u64 nnodes=0;
  E c(u64 v,int w);
  E newVar(const std::string& name,int w,const std::vector<u64>* dom);
  E table(int var,int w,std::vector<u64>&& vals);
  E bin(Kind k,E a,E b);
  E zext(E a,int w); E sext(E a,int w); E extract(E a,int lo,int w); E concat(E hi,E lo);
  E ite(E c,E t,E f);
  E lnot(E a);
  u64 eval(E e,const Model& m);      // cached per epoch
  void newEpoch(){ if(++epoch==0) epoch=1; }
  u32 epoch=1;
  const Model* lastModel=nullptr;
  std::string str(E e,int depth=6);
private:
  E mk(Kind k,int w,E a,E b,E cc,u64 cv,u32 aux,const std::vector<u64>* tab,VarSet vs);
  u64 evalRec(E e,const Model& m);
  static u64 apply(Kind k,int w,u64 x,u64 y,int aw);
  struct Key { Kind k; uint8_t w; u32 aux; E a,b,c; u64 cv; const void* tab;
    bool operator==(const Key&o)const{return k==o.k&&w==o.w&&aux==o.aux&&a==o.a&&b==o.b&&c==o.c&&cv==o.cv&&tab==o.tab;} };
  struct KH { size_t operator()(const Key&k)const{ u64 h=k.k*0x9E3779B97F4A7C15ull+k.w; auto mx=[&](u64 x){h^=x+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2);h*=0xff51afd7ed558ccdull;};
    mx(k.aux);mx((u64)k.a);mx((u64)k.b);mx((u64)k.c);mx(k.cv);mx((u64)k.tab);return h^(h>>32);} };
  std::unordered_map<Key,Expr*,KH> cons;
  struct VH { size_t operator()(const std::vector<u64>*v)const{u64 h=v->size();for(u64 x:*v){h^=x+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2);h*=0xff51afd7ed558ccdull;}return h;} };
  struct VE { bool operator()(const std::vector<u64>*a,const std::vector<u64>*b)const{return *a==*b;} };
  std::unordered_map<const std::vector<u64>*,const std::vector<u64>*,VH,VE> tabs;
  const std::vector<u64>* internTab(std::vector<u64>&& v);
  int tabVar(E a,E b,E c);  // common limited var of kids or -1
  u64 kidVal(E e,size_t i){ return e->k==K_CONST?e->cv:(*e->tab)[i]; }
};
extern Exprs X;

struct Solver {
  // statistics
  u64 queries=0, cacheHits=0, sat=0, unsat=0, unknown=0; double time=0, maxTime=0;
  Solver(); void reinit();
  // is the conjunction of cs satisfiable?  1 sat (model filled for vars involved), 0 unsat, -1 unknown
  int check(const std::vector<E>& cs, Model* m);
  std::string dump(const std::vector<E>& cs);
  unsigned timeoutMs=20000;
private:
  void* ctx; void* slv;
  void* tr(E e);
  std::vector<void*> zvars;
  std::unordered_map<std::string,std::pair<int,std::vector<std::pair<int,u64>>>> cache;
};
extern Solver S;
