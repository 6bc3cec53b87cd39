// C: apertium-pretransfer rewrites each lexical unit and nothing else (reference written from the stream format).
#include "../rt/rt.h"
extern "C" int apertium_pretransfer_main(int,char**);
static const char32_t ALPH[]=U"a<>+#$^[]\\/~\x00e9";
static const char32_t RAW[]=U"a<>+#$^[]\\/ \xFDD0";
static int N;
static void genRaw(Syms& s){ int n=N; for(int i=0;i<n;i++) s.push_back(symch("c",i,RAW)); }
// structured: wblank? LU with up to P parts, symbolic letters
static Syms IN;
static const char32_t LET[]=U"ab\x00e9\x1F600 +#\\~";  // '\\' means an escaped special follows
static void letter(Syms& s,const char* p,int i,const char32_t* dom){ uint32_t c=symch(p,i,dom); if(sym_concretize(c=='\\')){ s.push_back('\\'); s.push_back(symch("esc",i,U"$^/<>[]+#\\@{}")); } else s.push_back(c); }
static int ctr;
static void tag(Syms& s){ s.push_back('<'); int k=ctr++; s.push_back(symch("t",k,U"nv+~:\x00e9")); s.push_back('>'); }
static void lu(Syms& s,int parts){ s.push_back('^'); if(sym_param("n",0)){ letter(s,"sf",ctr++,U"a\\ +<"); letter(s,"sf",ctr++,U"a\\"); s.push_back('/'); }
  int q=pick("q",-1,3); for(int p=0;p<parts;p++){ if(p) s.push_back(symch("sep",p,sym_param("e",0)?U"+~":U"+")); letter(s,"l",ctr++,p?U"a\x1F600\\":LET); if(p==0) letter(s,"l",ctr++,U"ab +\\"); tag(s); if(p==0&&pick("tt",-1,2)) tag(s); if((q==1&&p==parts-1)||(q==2&&p==0)){ s.push_back('#'); s.push_back(' '); letter(s,"qq",ctr++,U"ab\x00e9\\"); } }
  s.push_back('$'); }
static void genLU(Syms& s){ ctr=0; int pre=pick("pre",-1,7); if(pre==6){ s.push_back(0x5b); letter(s,"sb",0,U"a\\"); const char* q="^c<n>+d<n>$]"; while(*q) s.push_back(*q++); } if(pre==1){ s.push_back(symch("b",0,U"a .;\x00e9/+#<>~]$")); } else if(pre==2){ s.push_back('['); letter(s,"sb",0,U"a<^$\\ "); letter(s,"sb",1,U"a\\[ "); s.push_back(']'); } else if(pre==3||pre==4){ s.push_back('['); s.push_back('['); letter(s,"wb",0,U"t:\\ ]"); s.push_back(symch("wb",1,U"a;")); s.push_back(']'); s.push_back(']'); } else if(pre==5){ s.push_back('\\'); s.push_back(symch("be",0,U"^$[]\\/")); }
  lu(s,pick("parts",-1,3)+1); int post=pick("post",-1,3); if(post==1) s.push_back(symch("b",1,U" \n\xFDD0")); if(post==2){ s.push_back(' '); s.push_back('^'); if(sym_param("n",0)) { s.push_back('s'); s.push_back('/'); } s.push_back('c'); s.push_back('<'); s.push_back('n'); s.push_back('>'); s.push_back('+'); s.push_back('d'); s.push_back('<'); s.push_back('m'); s.push_back('>'); s.push_back('$'); } }
static void (*G)(Syms&);
static void gen(Syms& s){ G(s); IN=s; }
// ---- reference.  returns false when the input is outside the stream format
static bool refLU(const Syms& u,const Syms& wb,Syms& o){ size_t i=0; bool n=sym_param("n",0), e=sym_param("e",0);
  if(n){ bool f=false; while(i<u.size()){ if(u[i]=='\\'){ i+=2; continue; } if(u[i]=='/'){ f=true; i++; break; } i++; } if(!f) return false; }
  struct Part { Syms lem, tags; uint32_t sep; }; std::vector<Part> ps(1); ps[0].sep=0; Syms queue; bool inQ=false, haveQ=false, seenTag=false;
  while(i<u.size()){ uint32_t c=u[i]; Part& p=ps.back();
    if(c=='\\'){ if(i+1>=u.size()) return false; Syms& d=inQ?queue:p.lem; if(!inQ&&!p.tags.empty()) return false; d.push_back(c); d.push_back(u[i+1]); i+=2; continue; }
    if(c=='<'){ if(inQ) return false; p.tags.push_back(c); i++; while(i<u.size()&&u[i]!='>'){ if(u[i]=='<'||u[i]=='\\'||u[i]=='#'||u[i]=='/') return false; p.tags.push_back(u[i++]); } if(i>=u.size()) return false; p.tags.push_back('>'); i++; seenTag=true; continue; }
    if(c=='>'||c=='^'||c=='['||c==']'||c==0) return false;
    if(seenTag&&c=='~'&&!e) return false;
    if(seenTag&&(c=='+'||c=='~')){ inQ=false; ps.push_back(Part()); ps.back().sep=c; i++; continue; }
    if(seenTag&&c=='#'){ if(haveQ) return false; haveQ=inQ=true; if(p.tags.empty()) return false; }
    if(inQ) queue.push_back(c); else { if(!p.tags.empty()) return false; p.lem.push_back(c); } i++; }
  o.push_back('^'); for(size_t k=0;k<ps.size();k++){ if(k){ if(ps[k].tags.empty()) return false; o.push_back('$'); if(ps[k].sep=='+') o.push_back(' '); add(o,wb); o.push_back('^'); } add(o,ps[k].lem); if(!k) add(o,queue); add(o,ps[k].tags); } o.push_back('$'); return true; }
static bool ref(const Syms& s,Syms& o){ size_t i=0,n=s.size(); while(i<n){ uint32_t c=s[i];
    if(c=='\\'){ if(i+1>=n) return false; o.push_back(c); o.push_back(s[i+1]); i+=2; }
    else if(c=='['){ if(i+1<n&&s[i+1]=='['){ Syms wb; wb.push_back('['); wb.push_back('['); i+=2; for(;;){ if(i>=n||s[i]==0) return false; if(s[i]=='\\'){ if(i+1>=n) return false; wb.push_back(s[i]); wb.push_back(s[i+1]); i+=2; continue; } if(s[i]==']'&&i+1<n&&s[i+1]==']'){ wb.push_back(']'); wb.push_back(']'); i+=2; break; } wb.push_back(s[i++]); } if(i>=n||s[i]!='^') return false; add(o,wb); i++; Syms u; for(;;){ if(i>=n||s[i]==0) return false; if(s[i]=='\\'){ if(i+1>=n) return false; u.push_back(s[i]); u.push_back(s[i+1]); i+=2; continue; } if(s[i]=='$') break; u.push_back(s[i++]); } i++; if(!refLU(u,wb,o)) return false; }
      else { o.push_back('['); i++; for(;;){ if(i>=n||s[i]==0) return false; if(s[i]=='\\'){ if(i+1>=n) return false; o.push_back(s[i]); o.push_back(s[i+1]); i+=2; continue; } o.push_back(s[i]); if(s[i]==']'){ i++; break; } i++; } } }
    else if(c=='^'){ i++; Syms u,wb; for(;;){ if(i>=n||s[i]==0) return false; if(s[i]=='\\'){ if(i+1>=n) return false; u.push_back(s[i]); u.push_back(s[i+1]); i+=2; continue; } if(s[i]=='$') break; u.push_back(s[i++]); } i++; if(!refLU(u,wb,o)) return false; }
    else { o.push_back(c); i++; } }
  return true; }
extern "C" void harness_main(){ N=sym_param("len",4); G=sym_param("raw",0)?genRaw:genLU;
  std::vector<const char*> a{"apertium-pretransfer"}; if(sym_param("z",1)) a.push_back("-z"); if(sym_param("n",0)) a.push_back("-n"); if(sym_param("e",0)) a.push_back("-e");
  rt::Res r=rt::run(apertium_pretransfer_main,a,gen); sym_assert(r.kind!=4,"terminates on every input"); sym_assert(r.kind==0,"never crashes");
  Syms want; bool wf=ref(IN,want); if(!wf){ sym_note("ill-formed"); return; } sym_note("well-formed"); showSyms("want",want); showSyms("out",r.out);
  sym_assert(r.code==0,"accepts every well-formed stream"); sym_assert(sameSyms(r.out,want),"output is the specified rewriting of the input"); }
