// apertium-posttransfer: collapses runs of spaces, everything else is copied.
#include "../rt/gen.h"
extern "C" int apertium_posttransfer_main(int,char**);
static Syms IN; static void gen(Syms& s){ int n=sym_param("len",6); for(int i=0;i<n;i++) s.push_back(symch("c",i,U"  a\n\t\\[]^$\xFDD0\x00e9\x1F600\x00a0")); IN=s; }
extern "C" void harness_main(){ std::vector<const char*> a{"apertium-posttransfer"}; if(sym_param("z",0)) a.push_back("-z"); rt::Res r=rt::run(apertium_posttransfer_main,a,gen);
  Syms w; for(size_t i=0;i<IN.size();i++) if(!(i&&IN[i]==' '&&IN[i-1]==' ')) w.push_back(IN[i]); showSyms("want",w); showSyms("out",r.out);
  sym_assert(r.kind==0&&r.code==0,"succeeds"); sym_assert(sameSyms(r.out,w),"output is the input with runs of spaces collapsed"); }
