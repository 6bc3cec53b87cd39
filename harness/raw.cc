// any program of the pipeline on any short input: it ends, without crashing or touching memory that is not its own.
#include "../rt/gen.h"
#include <cstring>
#include <string>
extern "C" int MAIN(int,char**);
// skeleton letters: '?' any character of the domain, 'a' .. literal
static const char32_t* dom(){ const char* s=sym_params("dom"); if(!s) s="^$/<>[]{}\\+#a"; char32_t* b=new char32_t[40]; int k=0; for(;*s;s++) b[k++]=*s=='0'?0xFDD0:(unsigned char)*s; b[k]=0; return b; }
static void gen(Syms& s){ const char* p=sym_params("tpl"); int len=sym_param("len",4); const char32_t* d=dom(); std::string q; if(p) q=p; else q=std::string(len,'?'); int n=sym_param("cut",1)?pick("len",-1,(int)q.size()+1):(int)q.size(); for(int i=0;i<n;i++) s.push_back(q[i]=='?'?symch("c",i,d):q[i]=='0'?0u:(uint32_t)(unsigned char)q[i]); }
extern "C" void harness_main(){ rt::bytes=sym_param("bytes",0); std::vector<const char*> a{"tool"}; if(const char* p=sym_params("args")){ std::string t; for(;;p++){ if(*p==','||!*p){ if(t.size()) a.push_back(t[0]=='@'?rt::tmp(strdup(t.c_str()+1)):strdup(t.c_str())); t.clear(); if(!*p) break; } else t+=*p; } }
  rt::Res r=rt::run(MAIN,a,gen); sym_assert(r.kind!=4,"terminates on every input"); sym_assert(r.kind!=3,"never crashes"); if(r.kind==2) sym_note("rejected with an exception"); else if(r.code) sym_note("rejected with an error exit"); else sym_note("accepted"); }
