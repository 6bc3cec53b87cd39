// Harness-side run-time interface (both under the engine and in native replay).
#pragma once
#include "harness.h"
#include <vector>
#include <string>
#include <initializer_list>
typedef std::vector<uint32_t> Syms;
namespace rt {
extern int bytes;                       // 1: stream units are bytes; 0: Unicode code points
struct Res { int kind; int code; Syms out; };   // kind 0 normal/exit(code), 2 uncaught exception or terminate, 3 abort/fatal signal, 4 no termination
// runs main-like function with a simulated stdin (units appended by gen when first read) and returns what it wrote to stdout
Res run(int(*m)(int,char**),const std::vector<const char*>& args,void(*gen)(Syms&));
Res runOn(int(*m)(int,char**),const std::vector<const char*>& args,const Syms& in);
bool native();
void vfile(const char* name,const Syms& data);   // a file the tools read or write (data in stream units)
void vwritten(const char* suffix);               // files whose names end so are kept in memory (and do not exist before they are written)
const char* tmp(const char* name);      // scratch file path (concrete phase)
}
// symbolic helpers
static inline uint32_t symch(const char* pre,int i,const char32_t* dom){ char n[40]; int k=0; while(pre[k]){ n[k]=pre[k]; k++; } if(i>=0){ if(i>=100) n[k++]='0'+i/100; if(i>=10) n[k++]='0'+(i/10)%10; n[k++]='0'+i%10; } n[k]=0; uint64_t d[160]; int c=0; while(dom[c]&&c<159){ d[c]=dom[c]==0xFDD0?0:dom[c]; c++; } int lo=0; uint64_t e[160]; int hi=0; for(int j=0;j<c;j++) if(d[j]<=0xffff) d[lo++]=d[j]; else e[hi++]=d[j]; if(!hi) return (uint32_t)sym_var(n,d,lo,32); if(lo){ char m[44]; int q=0; while(n[q]){ m[q]=n[q]; q++; } m[q++]='H'; m[q]=0; uint64_t bd[2]={0,1}; if(!sym_concretize(sym_var(m,bd,2,32))) return (uint32_t)sym_var(n,d,lo,32); } n[k++]='A'; n[k]=0; return (uint32_t)sym_concretize(sym_var(n,e,hi,32)); }   // U+FDD0 in a domain stands for NUL
static inline int pick(const char* pre,int i,int n){ char nm[40]; int k=0; while(pre[k]){ nm[k]=pre[k]; k++; } if(i>=0){ if(i>=100) nm[k++]='0'+i/100; if(i>=10) nm[k++]='0'+(i/10)%10; nm[k++]='0'+i%10; } nm[k]=0; uint64_t d[160]; for(int j=0;j<n;j++) d[j]=j; return (int)sym_concretize(sym_var(nm,d,n,32)); }
static inline void add(Syms& s,const char* t){ for(;*t;t++) s.push_back((unsigned char)*t); }
static inline void add(Syms& s,const char32_t* t){ for(;*t;t++) s.push_back(*t); }
static inline void add(Syms& s,const Syms& t){ for(uint32_t c:t) s.push_back(c); }
// value equality as one formula (no forking); lengths are concrete
static inline int sameSyms(const Syms& a,const Syms& b){ if(a.size()!=b.size()) return 0; if(a.empty()) return 1; return sym_mem_eq(a.data(),b.data(),a.size()*4); }
void showSyms(const char* n,const Syms& s);
