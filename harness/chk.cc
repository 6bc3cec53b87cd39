// apertium-interchunk (stage=2) and apertium-postchunk (stage=3): chunk streams.
#include "trxref.h"
extern "C" int apertium_interchunk_main(int,char**); extern "C" int apertium_postchunk_main(int,char**);
using namespace tr;
static Rules R; static std::vector<Tok> toks; static Syms tail; static int stage,W;
struct Piece { bool word; Syms wb,lem,s; std::vector<Syms> tags; };   // inside of a chunk: words and the text between them
static std::vector<std::vector<Piece>> inner; static std::vector<std::vector<Syms>> ctags; static std::vector<Syms> cname;
static const char32_t* dom(const char* p,const char32_t* d){ const char* s=sym_params(p); if(!s) return d; static char32_t buf[8][24]; static int n; char32_t* b=buf[n++&7]; int k=0; while(s[k]){ char c=s[k]; b[k]=c=='e'?U'\x00e9':c=='E'?U'\x00c9':(char32_t)c; k++; } b[k]=0; return b; }
static int bkind(int i,int m){ const char* o=sym_params("bks"); if(!o) return pick("bk",i,m); int n=0; while(o[n]) n++; return o[pick("bk",i,n)]-'0'; }
static void blank(Syms& s,int i,bool inner){ int m=sym_params("bks")?1:sym_param("bl",0); if(!m){ if(inner) s.push_back(' '); return; } switch(bkind(i,m)){ case 0: if(inner) s.push_back(' '); break; case 1: s.push_back('['); gl(s,"s",sym_params("bs")?dom("bs",U""):U"a<{\\"); s.push_back(']'); break; case 2: gl(s,"y",sym_params("bs")?U". ":U". \n\x1F600\\"); break; case 3: break; case 4: s.push_back(' '); s.push_back('['); gl(s,"s",sym_params("bs")?dom("bs",U""):U"a^$"); s.push_back(']'); gl(s,"y",sym_params("bs")?U".":U".\\"); break; } }
static void gen(Syms& s){ gctr=0; toks.clear(); tail.clear(); inner.clear(); ctags.clear(); cname.clear(); int nw=sym_param("nw",2),nulAt=sym_param("nul",-1),nl=sym_param("nl",2),iw=sym_param("iw",1); const char32_t *ND=dom("nd",U"nN"),*ND1=sym_params("nd1")?dom("nd1",U"a"):ND,*TD=dom("td",U"SP"),*TD1=sym_params("td1")?dom("td1",U"A"):TD,*LD=dom("ld",U"aB"); int nt=sym_param("nt",1);
  for(int i=0;i<=nw;i++){ Tok t; blank(t.blank,i,i>0&&i<nw&&i!=nulAt); if(i==nw){ tail=t.blank; add(s,tail); break; }
    if(int d=sym_param("dup",0);d&&i==nw-d){ if(i==nulAt){ add(s,t.blank); toks.push_back(t); toks.back().nul=true; s.push_back(0); t.blank.clear(); inner.push_back({}); ctags.push_back({}); cname.push_back({}); } for(int k=0;k<d;k++){ Tok c=toks[k]; if(!k) c.blank=t.blank; add(s,c.blank); s.push_back('^'); add(s,c.w.chunk); add(s,c.w.queue); s.push_back('$'); toks.push_back(c); } i=nw-1; continue; }
    if(i==nulAt){ add(s,t.blank); toks.push_back(t); toks.back().nul=true; s.push_back(0); t.blank.clear(); inner.push_back({}); ctags.push_back({}); cname.push_back({}); }
    Word& w=t.w; Syms nm; for(int k=0;k<nl;k++) gl(nm,"n",i?ND:ND1); cname.push_back(nm); w.chunk=nm; std::vector<Syms> ct; int n=nt<0?-nt:pick("nt",i,nt+1); for(int k=0;k<n;k++){ Syms g; gtag(g,i||k?TD:TD1); if(sym_param("t2",0)) g.insert(g.begin()+2,symch("t2",gctr++,U"xy")); ct.push_back(g); add(w.chunk,g); } ctags.push_back(ct);
    w.queue.push_back('{'); std::vector<Piece> ps;
    if(stage==2&&sym_param("ik",0)){ for(int k=0;k<iw;k++){ if(k||sym_param("ik",0)>1) switch(pick("ik",10*i+k,4)){ case 0: break; case 1: w.queue.push_back(' '); break; case 2: w.queue.push_back('}'); case 3: w.queue.push_back('['); gl(w.queue,"s",U"a}^$<\\"); w.queue.push_back(']'); } w.queue.push_back('^'); gl(w.queue,"l",LD); gtag(w.queue,TD); w.queue.push_back('$'); } }
    else if(stage==2){ for(int k=0;k<iw;k++) gl(w.queue,"o",U"a}^$\\"); }
    else { int m=iw<0?-iw:pick("iw",i,iw+1); if(sym_param("pre",0)&&pick("pre",i,2)){ Piece p{}; p.word=false; if(pick("pk",i,2)){ p.s.push_back('['); gl(p.s,"s",U"a<"); p.s.push_back(']'); } else gl(p.s,"y",U" .\\"); ps.push_back(p); }
      for(int k=0;k<m;k++){ Piece p{}; p.word=true; if(sym_param("wb",0)&&pick("wb",10*i+k,2)){ addlit(p.wb,"[["); gl(p.wb,"v",U"ab;\\"); addlit(p.wb,"]]"); } for(int q=sym_param("ll",1);q--;) gl(p.lem,"l",LD);
        int tn=sym_param("tn",1); tn=tn<0?-tn:pick("tn",10*i+k,tn+1); for(int q=0;q<tn;q++){ Syms g; int kind=sym_param("num",1)?pick("num",100*i+10*k+q,sym_param("num",1)+1):0; if(kind==1) gtag(g,U"123"); else if(kind==2){ addlit(g,"<1"); g.push_back(symch("t",gctr++,U"012")); g.push_back('>'); } else gtag(g,U"ns"); p.tags.push_back(g); }
        if(sym_param("q",0)&&pick("q",10*i+k,2)){ addlit(p.s,"# "); gl(p.s,"g",U"aB"); }
        ps.push_back(p); bool end=k+1==m; if(end&&!sym_param("post",0)) break; Piece b{}; b.word=false; switch(pick("ib",10*i+k,end?3:sym_param("ib",1))){ case 0: if(!end) b.s.push_back(' '); break; case 1: b.s.push_back('['); gl(b.s,"s",U"a<^\\"); b.s.push_back(']'); break; case 2: gl(b.s,"y",U".\\ "); break; case 3: break; case 4: b.s.push_back(' '); b.s.push_back('['); gl(b.s,"s",U"a}"); b.s.push_back(']'); break; case 5: b.s.push_back('['); gl(b.s,"s",U"a"); b.s.push_back(']'); gl(b.s,"y",U"., "); break; } if(!b.s.empty()) ps.push_back(b); }
      for(auto& p:ps){ if(!p.word){ add(w.queue,p.s); continue; } add(w.queue,p.wb); w.queue.push_back('^'); add(w.queue,p.lem); for(auto& g:p.tags) add(w.queue,g); add(w.queue,p.s); w.queue.push_back('$'); } }
    w.queue.push_back('}'); w.raw.push_back((uint32_t)inner.size()); inner.push_back(ps); toks.push_back(t); add(s,t.blank); s.push_back('^'); add(s,w.chunk); add(s,w.queue); s.push_back('$'); } }
// contents of a chunk after numbered tags are replaced and the chunk's case is given to the text of its words
static std::vector<Piece> open(Word& w){ size_t i=w.raw[0]; auto ps=inner[i]; auto& ct=ctags[i]; Syms cs=getcase(cname[i]); bool all=!W&&cs[1]=='A',first=!W&&cs[0]=='A'&&!all;
  for(auto& p:ps) if(p.word){ auto up=[&](Syms& t){ for(size_t k=0;k<t.size();k++){ if(t[k]=='\\'){ k++; continue; } if(all) t[k]=u_toupper(t[k]); else if(first&&u_isalnum(t[k])){ t[k]=u_toupper(t[k]); first=false; } } }; up(p.lem);
    for(auto& g:p.tags) if(u_isdigit(g[1])){ unsigned v=0; for(size_t k=1;k+1<g.size();k++) v=v*10+(g[k]-'0'); if(v>=1&&v<=ct.size()) g=ct[v-1]; else g.clear(); } up(p.s); }
  return ps; }
static Syms body(const Piece& p){ Syms r=p.lem; for(auto& g:p.tags) add(r,g); add(r,p.s); return r; }
static void dflt(Interp& I,Word& w){ if(stage==2){ I.out.push_back('^'); add(I.out,w.chunk); add(I.out,w.queue); I.out.push_back('$'); return; }
  for(auto& p:open(w)) if(p.word){ add(I.out,p.wb); I.out.push_back('^'); add(I.out,body(p)); I.out.push_back('$'); } else add(I.out,p.s); }
static std::deque<Word> hold;
static void prep(Interp& I,std::vector<Word>& c){ if(stage!=3) return; Word* z=&c[0]; hold.clear(); I.ws.clear(); I.blanks.clear(); Word w0; w0.chunk=z->chunk; hold.push_back(w0); bool sep=true; for(auto& p:open(*z)) if(p.word){ Word x; x.wb=p.wb; x.chunk=body(p); if(!sep) I.blanks.push_back(Syms()); hold.push_back(x); sep=false; } else { I.blanks.push_back(p.s); sep=true; } for(auto& h:hold) I.ws.push_back(&h); I.lucount=(int)hold.size()-1; }
extern "C" void harness_main(){ stage=sym_param("stage",2); W=sym_param("w",0); glesc=U"^$[]{}\\"; int z=sym_param("z",0); const char* xml=rt::tmp("rules.xml"); load(R,xml,stage);
  std::vector<const char*> a{"apertium-chunk"}; if(z) a.push_back("-z"); if(W) a.push_back("-w"); a.push_back(xml); a.push_back(rt::tmp("rules.bin"));
#ifdef POST
  rt::Res r=rt::run(apertium_postchunk_main,a,gen);
#else
  rt::Res r=rt::run(apertium_interchunk_main,a,gen);
#endif
  Interp I(R); I.w=W; runRef(I,R,toks,tail,z,dflt,prep);
  showSyms("want",I.out); showSyms("out",r.out); sym_assert(!I.err,"reference interpreter accepts the rules");
  if(z&&r.out.size()==I.out.size()+1) I.out.push_back(0);
  sym_assert(r.kind!=4,"terminates"); sym_assert(r.kind==0&&r.code==0,"succeeds"); sym_assert(sameSyms(r.out,I.out),"output is what the rules specify"); }
