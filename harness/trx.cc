// apertium-transfer: rule selection, rule execution, default output, blanks, word-bound blanks, null flush.
#include "trxref.h"
extern "C" int apertium_transfer_main(int,char**);
using namespace tr;
static Rules R; static std::vector<Tok> toks; static Syms IN, tail;
static const char32_t* dom(const char* p,const char32_t* d){ const char* s=sym_params(p); if(!s) return d; static char32_t buf[8][24]; static int n; char32_t* b=buf[n++&7]; int k=0; while(s[k]){ char c=s[k]; b[k]=c=='e'?U'\x00e9':c=='E'?U'\x00c9':c=='_'?U'\0':(char32_t)c; if(!b[k]) b[k]=U'*'; k++; } b[k]=0; return b; }
static void lemma(Syms& s,const char* p,int n,const char32_t* d){ for(int i=0;i<n;i++) gl(s,p,d); }
static bool bil,esc; static const char32_t *LD,*LD2,*TD,*TLD;
static int bkind(int i,int m){ const char* o=sym_params("bks"); if(!o) return pick("bk",i,m); int n=0; while(o[n]) n++; return o[pick("bk",i,n)]-'0'; }
static void blank(Syms& s,int i,bool inner){ int m=sym_params("bks")?1:sym_param("bl",0); if(!m){ if(inner) s.push_back(' '); return; } switch(bkind(i,m)){ case 0: if(inner) s.push_back(' '); break; case 1: s.push_back('['); gl(s,"s",sym_params("bs")?dom("bs",U""):U"a<\\"); s.push_back(']'); break; case 2: gl(s,"y",sym_params("bs")?U". ":U". \n\x1F600\\"); break; case 3: break; case 4: s.push_back(' '); s.push_back('['); gl(s,"s",sym_params("bs")?dom("bs",U""):U"a^$"); s.push_back(']'); gl(s,"y",sym_params("bs")?U".":U".\\"); break; } }
static void tg(Syms& s,const char32_t* d){ int m=sym_param("tw",1); if(m<2){ gtag(s,d); return; } s.push_back('<'); for(int k=pick("tw",gctr++,m)+1;k--;) s.push_back(symch("t",gctr++,d)); s.push_back('>'); }
static const char32_t* TD1;
static void tags(Syms& s,int i){ int m=sym_param("tags",1); int n=m<0?-m:pick("nt",gctr++,m)+1; for(int k=0;k<n;k++) tg(s,k?TLD:i==0&&TD1?TD1:TD); }
static void gen(Syms& s){ gctr=0; toks.clear(); tail.clear(); int nw=sym_param("nw",2); int nulAt=sym_param("nul",-1); int ll=sym_param("ll",1), tl=sym_param("tl",1);
  for(int rep=sym_param("rep",0);rep--;){ Tok t; t.blank.push_back(' '); addlit(t.w.s,"z<n><s>"); addlit(t.w.t,"x<s>"); add(s,t.blank); addlit(s,"^z<n><s>/x<s>$"); toks.push_back(t); }
  for(int i=0;i<=nw;i++){ Tok t; blank(t.blank,i,(i>0||sym_param("rep",0))&&i<nw&&i!=nulAt); if(i==nw){ tail=t.blank; add(s,tail); break; }
    if(int d=sym_param("dup",0);d&&i==nw-d){ if(i==nulAt){ add(s,t.blank); toks.push_back(t); toks.back().nul=true; s.push_back(0); t.blank.clear(); } for(int k=0;k<d;k++){ Tok c=toks[k]; if(!k) c.blank=t.blank; add(s,c.blank); add(s,c.w.wb); s.push_back('^'); add(s,c.w.s); s.push_back('/'); add(s,c.w.t); s.push_back('$'); toks.push_back(c); } i=nw-1; continue; }   // the same words once more: instructions run from their caches
    if(i==nulAt){ add(s,t.blank); toks.push_back(t); toks.back().nul=true; s.push_back(0); t.blank.clear(); }
    Word& w=t.w; if(sym_param("wb",0)&&pick("wb",i,2)){ addlit(w.wb,"[["); gl(w.wb,"v",sym_param("wb",0)>1?U"ab;\\":U"ab;"); if(sym_param("wb",0)>1&&pick("wb2",i,2)) gl(w.wb,"v",U" \\"); addlit(w.wb,"]]"); }
    lemma(w.s,"l",ll,LD); tags(w.s,i); if(sym_param("q",0)&&pick("q",i,2)){ addlit(w.s,"# "); gl(w.s,"g",U"aB"); }
    if(bil){ int tk=sym_param("unk",0)?pick("tk",i,sym_param("unk",0)>1?3:2):0; if(tk==1){ w.t.push_back('@'); add(w.t,w.s); } else if(tk==2){ w.s.insert(w.s.begin(),'*'); w.t=w.s; } else { lemma(w.t,"m",tl,LD2); tg(w.t,TLD); if(int m=sym_param("tt",0)) for(int k=m<3?pick("tt",i,2):pick("tt",i,m);k--;) tg(w.t,TD); if(sym_param("tq",0)&&pick("tq",i,2)){ addlit(w.t,"# "); gl(w.t,"g",U"aB"); } } }
    else w.t=w.s;
    Syms extra; if(sym_param("ref",0)){ int rk=pick("rk",i,sym_param("ref",0)); if(rk>=1){ gl(w.r,"r",U"ab"); gtag(w.r,U"nv"); if(rk==2){ extra.push_back('/'); gl(extra,"r",U"z"); gtag(extra,U"n"); } } }
    add(s,t.blank); add(s,w.wb); s.push_back('^'); add(s,w.s); if(bil){ s.push_back('/'); add(s,w.t); if(!w.r.empty()){ add(s,extra); s.push_back('/'); add(s,w.r); } } s.push_back('$'); toks.push_back(t); }
  IN=s; }
static void dflt(Interp& I,Word& w){ Syms d=w.t; if(d.empty()) return; Syms o; if(R.chunkDefault) addlit(o,d[0]=='*'?"^unknown<unknown>{":"^default<default>{"); add(o,w.wb); o.push_back('^'); add(o,d); o.push_back('$'); if(R.chunkDefault) addlit(o,"}$"); add(I.out,o); }
extern "C" void harness_main(){ bil=!sym_param("n",0); LD=dom("ld",U"aB"); LD2=dom("ld2",U"xY"); TD=dom("td",U"nv"); TLD=dom("tld",U"sp"); TD1=sym_params("td1")?dom("td1",U"A"):nullptr; glesc=U"^$[]/\\"; int z=sym_param("z",0);
  const char* xml=rt::tmp("rules.xml"); load(R,xml,1);
  std::vector<const char*> a{"apertium-transfer"}; a.push_back(bil?"-b":"-n"); if(z) a.push_back("-z"); if(sym_param("w",0)) a.push_back("-w"); a.push_back(xml); a.push_back(rt::tmp("rules.bin"));
  rt::Res r=rt::run(apertium_transfer_main,a,gen);
  Interp I(R); I.w=sym_param("w",0); runRef(I,R,toks,tail,z,dflt,[](Interp&,std::vector<Word>&){});
  showSyms("want",I.out); showSyms("out",r.out); sym_assert(!I.err,"reference interpreter accepts the rules");
  if(z&&r.out.size()==I.out.size()+1) I.out.push_back(0);   // one more flush mark at the end of input is harmless
  sym_assert(r.kind!=4,"terminates"); sym_assert(r.kind==0&&r.code==0,"succeeds"); sym_assert(sameSyms(r.out,I.out),"output is what the rules specify"); }
