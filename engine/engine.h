// Symbolic interpreter for LLVM IR (one process = one depth-first worker; idle cores are fed by fork()).
#pragma once
#include "expr.h"
#include <functional>
#include <stdexcept>
#include <atomic>
#include <cstring>

struct Val { u64 c; E e; };
static inline Val VC(u64 c){ return Val{c,nullptr}; }

struct Leaf { u32 off; uint16_t bits; };      // scalar piece of a type: byte offset, bit width (<=64)
struct Func; struct Inst;

enum Op : uint8_t { OP_NOP, OP_BIN, OP_ICMP, OP_FBIN, OP_FCMP, OP_FNEG, OP_TRUNC, OP_ZEXT, OP_SEXT, OP_COPY, OP_FPCAST, OP_LOAD, OP_STORE, OP_LOADN, OP_STOREN, OP_GEP,
  OP_ALLOCA, OP_BR, OP_CBR, OP_SWITCH, OP_CALL, OP_RET, OP_SELECT, OP_LPAD, OP_RESUME, OP_UNREACH, OP_RMW, OP_CMPXCHG, OP_WIDE, OP_MOVES, OP_UNSUP };

struct Move { int dst, src; };
struct GepIdx { int slot; u64 scale; uint16_t bits; };
struct CallInfo {
  int callee=-1;            // slot of function pointer
  Func* direct=nullptr;     // direct callee
  std::vector<int> args;    // flattened argument slots
  std::vector<uint16_t> argBits; std::vector<uint8_t> argFP; // 0 int, 4 float, 8 double
  std::vector<u32> byval; // per flattened arg: >0 size when passed byval
  int nfixed=0; bool vararg=false; bool unsup=false;
  int dst=-1, retSlots=0; uint8_t retFP=0; uint16_t retBits=0;
  bool invoke=false; int normal=-1, unwind=-1;  // edge ids
  int intr=0;               // intrinsic id
};
struct SwitchInfo { std::vector<std::pair<u64,int>> cases; int def; };
struct Edge { u32 target; std::vector<Move> moves; };
struct Inst { Op op; uint8_t sub=0; uint16_t bits=0, bits2=0; int dst=-1, a=-1, b=-1, c=-1; u64 imm=0; u32 x=0; u32 line=0; };

struct Engine;
typedef bool (*Builtin)(Engine&, const CallInfo&, Val* args, int n, Val* ret);  // returns true when it manages control flow itself

struct Func {
  std::string name; const void* lf=nullptr; u64 addr=0; bool decoded=false, hasBody=false, repo=false; int idx=0;
  std::vector<Inst> code; std::vector<Val> consts; int nslots=0; int nargs=0; bool vararg=false; int personality=0;
  std::vector<CallInfo> calls; std::vector<SwitchInfo> switches; std::vector<Edge> edges;
  std::vector<std::vector<Leaf>> leaves; std::vector<std::vector<GepIdx>> geps; std::vector<std::vector<Move>> moves;
  struct LP { bool cleanup; struct Cl { bool filter; std::vector<u64> types; }; std::vector<Cl> clauses; }; std::vector<LP> lps;
  Builtin bi=nullptr; void* native=nullptr; bool resolved=false; int policy=0;
};

struct Frame { Func* f; u32 pc; u32 base; u64 sp; u64 va; u64 vaN; uint8_t isTry; u64 tryRes; };
struct Exc { u64 obj, type, dtor; int handlers; u64 adj; };
struct State { std::vector<Frame> fr; std::vector<Val> R; u64 sp, bump; size_t nalloc; std::vector<Exc> excs; std::vector<int> caught; u64 steps; u64 uncaughtN; VarSet used{}; };

struct TrailE { u64 where; u64 old; u32 kind; u32 ex; };  // kind 0 mem word,1 addr bitmap word,2 alloc liveness,3 native word, 4 sym-bit word
struct CP { u64 msp=0; State st; size_t trail, trailEx, pc; Model model; E alt; };

struct PathEnd { const char* why; };
struct Inconclusive { std::string why; };

struct Shared {
  std::atomic<int> active, maxActive, stop, crashed, incomplete;
  std::atomic<u64> paths, ended, forks, instrs, asserts, assertsSym, queries, cacheHits, sat, unsat, unknown, violations, maxdepth, killed, cut, decisions; std::atomic<u64> solver_us, maxq_us;
  std::atomic<u64> natives, inconcl;
  struct L { std::atomic<int> used; char name[120]; std::atomic<u64> n, sym; } labels[1024];
  std::atomic<uint8_t> funcHit[65536];
};

struct Engine {
  Shared* sh=nullptr;
  std::vector<Func*> funcs; std::unordered_map<std::string,Func*> byName; std::unordered_map<u64,Func*> byAddr;
  State st; std::vector<CP> cps; std::vector<TrailE> trail; std::vector<E> trailEx;
  std::vector<E> pc; std::unordered_map<E,int> pcSet; Model model; bool symPhase=false; int inNative=0;
  struct Alloc { u64 off, len; bool live; }; std::vector<Alloc> allocs; // append only below a CP
  u64 heapLim=0, stackLim=0; bool logging=false;
  void initMem();
  bool okAcc(u64 addr,u32 n); void chkAcc(u64 addr,u64 n,const char* what);
  Val load(u64 addr,int bits); void store(u64 addr,int bits,Val v);
  Val loadBytes(u64 addr,int n); 
  bool isSym(u64 addr,u64 n);
  Val byteAt(u64 addr); void setByte(u64 addr,Val v);
  void copyMem(u64 d,u64 s,u64 n); void setMem(u64 d,Val b,u64 n);
  u64 alloc(u64 n,u64 align,bool zero); void freeMem(u64 a,const char* what); u64 allocSize(u64 a); u64 stackAlloc(u64 n,u64 align);
  void setAddrBits(u64 addr,u64 len,bool v);
  void logWord(u64 addr); void logNative(u64 addr);
  std::string str(u64 addr,size_t max=200);
  Val loadSymAddr(E a,int bits);
  E toE(Val v,int bits){ return v.e?v.e:X.c(v.c,bits); }
  int known(E c); bool decide(E c); u64 concretize(E e); u64 conc(Val v){ return v.e?concretize(v.e):v.c; }
  bool decideV(Val v){ return v.e?decide(v.e):(v.c&1); }
  void addPC(E c); int feasible(E c,Model* m); std::vector<u64> feasVals(int var);
  void sample(); void violation(const std::string& label,const Model& m,const std::string& detail);
  void doAssert(Val c,const std::string& label);
  [[noreturn]] void memError(const std::string& what);
  void pushCP(E alt,const Model& m); bool backtrack(); void maybeShare(); void restoreTo(CP& cp); void updLims();
  void run(Func* f); void loop(); void pushFrame(Func* f,Val* args,int n,const CallInfo* ci); void popFrame();
  void doRet(Val* v,int n);
  void throwExc(Exc ex); void resumeUnwind(int excIdx);
  bool callNative(Func* f,const CallInfo& ci,Val* args,int n,Val* ret);
  void doCall(const Inst& in);
  void takeEdge(Func* f,Val* R,int edge);
  void flushStats(bool final); 
  Shared::L* label(const std::string& s);
  u64 stepLimit=20000000; double deadline=0; std::string outFile; int maxViol=6; bool verbose=false, traceCalls=false;
  std::string backtrace(); std::unordered_map<std::string,int> violCount; 
  std::map<std::string,std::string> params; double lastShare=0; u64 instrs=0; u64 decisions=0; u64 nativeCalls=0;
  std::vector<pid_t> kids; double statT=0; u64 qBase[6]={0};
};
extern Engine EN;
bool loadModules(const std::vector<std::pair<std::string,bool>>& files);
void decodeFunc(Func* f);
Func* funcAt(u64 addr);
extern std::unordered_map<std::string,Builtin> builtins;
extern std::unordered_map<std::string,int> purity; // native functions allowed while data is symbolic: 1 pure on memory, 2 unary liftable
void registerBuiltins(); int policyFor(const std::string& n);
u64 globalAddr(const std::string& n);
double nowS();
std::vector<Func*> ctorList();
static const u64 BASE=0x100000000000ull, GLOB=128ull<<20, STACK=128ull<<20, HEAP=1024ull<<20, ARENA=GLOB+STACK+HEAP;
static inline bool inArena(u64 a){ return a-BASE<ARENA; }
