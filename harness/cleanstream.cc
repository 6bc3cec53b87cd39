// apertium-cleanstream: keeps the lexical units, replaces what is between them by separators.
#include "../rt/gen.h"
extern "C" int apertium_cleanstream_main(int,char**);
static Syms IN; static int raw,N;
static void gen(Syms& s){ gctr=0; if(raw){ for(int i=0;i<N;i++) s.push_back(symch("c",i,U"a<[]^$\\ \xFDD0\x1F600")); }
  else for(int k=0;k<N;k++) switch(pick("k",k,5)){ case 0: s.push_back('^'); { int l=pick("ll",k,3); for(int i=0;i<=l;i++) gl(s,"l",U"a\x00e9\x1F600/<>+#[]\\ \n{"); } s.push_back('$'); break;
    case 1: gl(s,"b",U" .\x1F600\n\\]/<>"); break; case 2: s.push_back('['); gl(s,"s",U"a<^$\\ /"); if(pick("s2",k,2)) gl(s,"s",U"a\\ "); s.push_back(']'); break; case 3: s.push_back('['); s.push_back(']'); break; }
  IN=s; }
// reference: false when the input is not well formed
static bool ref(const Syms& s,Syms& o,bool n,bool b){ size_t i=0; bool text=false; uint32_t ws=n?'\n':' ';
  while(i<s.size()){ uint32_t c=s[i];
    if(c=='\\'){ if(i+1>=s.size()) return false; text=true; i+=2; }
    else if(c=='['){ size_t j=i+1; while(j<s.size()&&s[j]!=']'){ if(s[j]==0) return false; if(s[j]=='\\') j++; else if(s[j]=='[') return false; j++; } if(j>=s.size()) return false; o.push_back(ws); if(b) for(size_t k=i;k<=j;k++) o.push_back(s[k]); i=j+1; }
    else if(c=='^'){ size_t j=i+1; while(j<s.size()&&s[j]!='$'){ if(s[j]=='^'||s[j]==0) return false; if(s[j]=='\\') j++; j++; } if(j>=s.size()) return false; if(text||n) o.push_back(ws); for(size_t k=i;k<=j;k++) o.push_back(s[k]); text=false; i=j+1; }
    else if(c=='$') return false; else { text=true; i++; } }
  if(n) o.push_back('\n'); return true; }
extern "C" void harness_main(){ raw=sym_param("raw",0); N=sym_param("len",4); std::vector<const char*> a{"apertium-cleanstream"}; bool n=sym_param("n",0),b=sym_param("b",0); if(n) a.push_back("-n"); if(b) a.push_back("-b"); rt::Res r=rt::run(apertium_cleanstream_main,a,gen);
  sym_assert(r.kind!=4,"terminates on every input"); sym_assert(r.kind==0&&r.code==0,"never crashes"); Syms w; if(!ref(IN,w,n,b)) return; sym_note("well-formed"); if(sym_param("dump",0)) for(size_t i=0;i<w.size()&&i<r.out.size();i++){ sym_dump(w[i],"w"); sym_dump(r.out[i],"o"); } showSyms("want",w); showSyms("out",r.out); sym_assert(sameSyms(r.out,w),"output is the specified cleaned stream"); }
