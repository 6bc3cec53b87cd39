// transfer, interchunk and postchunk on streams that stop at any point (a dead upstream process): they end, do not crash,
// and everything before the last complete token is still there.
#include "../rt/gen.h"
extern "C" int apertium_transfer_main(int,char**); extern "C" int apertium_interchunk_main(int,char**); extern "C" int apertium_postchunk_main(int,char**);
static void gen(Syms& s){ gctr=0; const char* p=sym_params("tpl"); int n=0; while(p[n]) n++; int k=pick("cut",-1,n);
  for(int i=0;i<=k;i++){ Syms t; switch(p[i]){ case 'L': gl(t,"l",U"a\\*"); break; case 'T': t.push_back(symch("t",gctr++,U"nvSP1s")); break; case 'B': gl(t,"y",U" \\"); break; case 'S': t.push_back('['); gl(t,"s",U"a^\\"); t.push_back(']'); break; case 'W': addlit(t,"[["); gl(t,"w",U"a\\"); addlit(t,"]]"); break; case '0': t.push_back(0); break; default: t.push_back((unsigned char)p[i]); }
    int m=i<k?(int)t.size():(int)pick("part",-1,(int)t.size()); for(int q=0;q<m;q++) s.push_back(t[q]); } }
extern "C" void harness_main(){ glesc=U"^$[]{}/\\"; std::vector<const char*> a{"tool"}; if(sym_param("n",0)) a.push_back("-n"); if(sym_param("z",0)) a.push_back("-z"); 
  if(sym_param("stage",1)==1&&!sym_param("n",0)) a.push_back("-b"); a.push_back(rt::tmp("rules.xml")); a.push_back(rt::tmp("rules.bin"));
#if defined POST
  rt::Res r=rt::run(apertium_postchunk_main,a,gen);
#elif defined INTER
  rt::Res r=rt::run(apertium_interchunk_main,a,gen);
#else
  rt::Res r=rt::run(apertium_transfer_main,a,gen);
#endif
  sym_assert(r.kind!=4,"terminates on every truncated input"); sym_assert(r.kind!=3,"never crashes"); if(r.kind==2) sym_note("rejected with an exception"); else if(r.code) sym_note("rejected with an error exit"); else sym_note("accepted"); }
