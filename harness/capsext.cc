// apertium-extract-caps: capitalisation of the surface form and of the first reading goes to a word-bound blank.
#include "../rt/gen.h"
#include <unicode/uchar.h>
extern "C" int apertium_extract_caps_main(int,char**);
static Syms want; static int S;
static bool up(uint32_t c){ return u_isupper(c); }
static void kase(Syms& o,const Syms& s){ if(s.empty()||!up(s[0])){ addlit(o,"aa"); return; } addlit(o,s.size()>1&&up(s[s.size()-1])?"AA":"Aa"); }
static const char32_t* dom(const char* p,const char32_t* d){ const char* s=sym_params(p); if(!s) return d; char32_t* b=new char32_t[24]; int k=0; while(*s) b[k++]=(unsigned char)*s++; b[k]=0; return b; }
static void gen(Syms& s){ want.clear(); gctr=0; int nw=sym_param("nw",2),bl=sym_param("bl",6),sl=sym_param("sl",2),ll=sym_param("ll",2),nr=sym_param("nr",3),pt=sym_param("pt",2),wb=sym_param("wb",3); const char32_t *SD=dom("sd",U"aBé1\\"),*LD=dom("ld",U"aB\\");
  auto both=[&](const Syms& x){ add(s,x); add(want,x); };
  for(int i=0;i<=nw;i++){ Syms b; switch(pick("bk",i,bl)){ case 0: b.push_back(' '); break; case 1: break; case 2: addlit(b,"[\\]"); b.push_back(symch("x",gctr++,U"a^$")); addlit(b,"[]"); break; case 3: b.push_back(symch("x",gctr++,U"$/<>]")); break; case 4: b.push_back('\\'); b.push_back(symch("x",gctr++,U"^[]\\")); break; case 5: b.push_back(0); break; case 6: b.push_back(0); b.push_back(0); b.push_back('\n'); break; } both(b); if(i==nw) break;
    Syms old,surf,lem,r1; int wk=pick("wk",i,wb); if(wk){ addlit(old,"[["); addlit(old,"t:"); gl(old,"v",U"ab;\\"); if(wk>1){ addlit(old,"; "); gl(old,"v",U"b\\"); } addlit(old,"]]"); add(s,old); }
    for(int k=pick("sl",i,sl)+1;k--;) gl(surf,"s",SD);
    int R=pick("nr",i,nr);   // number of readings - 1, or none
    if(nr==1) R=1;
    if(R){ int P=pick("pt",i,pt)+1; for(int p=0;p<P;p++){ if(p) r1.push_back('+'); for(int k=pick("ll",i*4+p,ll)+1;k--;){ Syms c; gl(c,"l",LD); add(lem,c); add(r1,c); } if(p<P-1||P==1||true){ for(int t=pick("tg",i*4+p,sym_param("tg",1))+1;t--;){ Syms tg; gtag(tg,U"nA"); add(r1,tg); } } if(p<P-1) lem.resize(p?lem.size():lem.size()); } }
    add(s,U"^"); add(s,surf); if(R){ s.push_back('/'); add(s,r1); for(int k=1;k<R;k++){ s.push_back('/'); gl(s,"o",U"aB\\"); gtag(s,U"n"); } } s.push_back('$');
    // the first letter decides between aa and the rest, the last letter of the last lemma between Aa and AA
    Syms c; addlit(c,"c:"); kase(c,surf); c.push_back('/');
    kase(c,lem);
    if(old.empty()){ addlit(want,"[["); add(want,c); addlit(want,"]]"); } else { add(want,sub(old,0,old.size()-2)); addlit(want,"; "); add(want,c); addlit(want,"]]"); }
    want.push_back('^'); if(S){ add(want,surf); want.push_back('/'); } add(want,r1); want.push_back('$'); } }
extern "C" void harness_main(){ glesc=U"^$[]/\\<"; S=sym_param("s",0); std::vector<const char*> a{"apertium-extract-caps"}; if(S) a.push_back("-s"); if(sym_param("z",1)) a.push_back("-z");
  rt::Res r=rt::run(apertium_extract_caps_main,a,gen); showSyms("want",want); showSyms("out",r.out); sym_assert(r.kind!=4,"terminates"); sym_assert(r.kind==0&&r.code==0,"succeeds"); sym_assert(sameSyms(r.out,want),"capitalisation marks, readings, blanks and flushes are as specified"); }
