// Deformatter and reformatter of one format.  A document template names, per item, what the format documents say it is
// (T text, S white space, M markup, D markup that ends a sentence, H markup that ends a heading, R source=text=back an entity); %-places are
// symbolic bytes.  The expected stream follows from the classes alone.
#include "gen.h"
#include <cstring>
extern "C" int DES(int,char**); extern "C" int RE(int,char**);
static char32_t dom[8][160];
static void domain(int i,const char* p,const char* def){ const char* s=sym_params(p); if(!s) s=def; int k=0; for(;*s;s++){ char32_t c=(unsigned char)*s; if(c=='\\'&&s[1]=='n'){ c='\n'; s++; } else if(c=='\\'&&s[1]=='t'){ c='\t'; s++; } else if(c=='\\'&&s[1]=='\\') s++; dom[i][k++]=c; } dom[i][k]=0; }
static const char* esc; static bool isEsc(uint32_t c){ unsigned r=0; for(const char* e=esc;*e;e++) r|=(unsigned)(c==(unsigned char)*e); return sym_concretize(r)!=0; }
static Syms place(const char*& p){ Syms s; char k=*p++; static const char32_t u2[]={0xa9,0xbc,0x80,0}, u3[]={0xac,0xad,0xbf,0}, u4[]={0x80,0x8a,0xbf,0};
  if(k=='B'){ s.assign(8192,' '); return s; }
 if(k=='u'){ int w=pick("u",gctr++,3); if(w==0) s.push_back(0xc3); else if(w==1){ s.push_back(0xe2); s.push_back(0x82); } else { s.push_back(0xf0); s.push_back(0x9f); s.push_back(0x98); } s.push_back(symch("c",gctr++,w==0?u2:w==1?u3:u4)); return s; } int d=k=='t'?0:k=='m'?1:k=='s'?2:k=='d'?3:k=='l'?4:-1; if(d<0){ s.push_back(k=='n'?'\n':(unsigned char)k); return s; } s.push_back(symch("c",gctr++,dom[d])); return s; }
static Syms text(const char* p,const char* e){ Syms s; while(p<e){ if(*p=='%'){ p++; Syms q=place(p); add(s,q); } else s.push_back((unsigned char)*p++); } return s; }
static Syms doc,out,back,buf; static bool isDot,isEoh,lastDot,nodot,eosI,markE; static int mode;
static void put(const Syms& s){ for(uint32_t c:s){ if(isEsc(c)) out.push_back('\\'); out.push_back(c); } }
// the sentence mark; without dots it is an empty blank, which may not follow a dot of the text (".[]" would be taken for a mark)
static void dot(){ if(!nodot) addlit(out,".[]"); else if(!lastDot) addlit(out,"[]"); }
static void flush(){ if(isEoh&&markE){ if(!lastDot) addlit(out,"[]"); addlit(out,"\xe2\x9d\xa1"); isEoh=false; lastDot=false; } if(isDot&&!eosI){ dot(); if(!nodot) lastDot=false; isDot=false; }
  bool blank=buf.size()>1; if(buf.size()==1) blank=!sym_concretize(buf[0]==' '); if(blank){ if(eosI) dot(); out.push_back('['); put(buf); out.push_back(']'); lastDot=false; } else if(!buf.empty()){ add(out,buf); lastDot=false; } buf.clear(); }
static void item(char k,const char* p,const char* e){ 
  if(k=='R'){ const char* q=p; while(*q!='=') q++; const char* r=q+1; while(r<e&&*r!='=') r++; Syms src=text(p,q); flush(); lastDot=false; add(out,text(q+1,r)); add(back,r<e?text(r+1,e):src); add(doc,src); return; }
  Syms s=text(p,e); if(k=='X'){ add(out,s); return; } add(doc,s); add(back,s);
  if(k=='T'){ flush(); put(s); lastDot=!s.empty()&&sym_concretize(s.back()=='.'); return; }
  if(k=='D'||k=='H') isDot=true; if(k=='H') isEoh=true;
  add(buf,s); if(mode==2) flush(); }
static void build(){ const char* p=sym_params("doc"); int n=0; while(p&&*p){ const char* e=strchr(p,0x7c); const char* nx=e?e+1:p+strlen(p); if(!e) e=nx; bool opt=*p=='?'; if(opt) p++; if(!opt||pick("o",n++,2)) item(*p,p+1,e); p=nx; }
  int raw=sym_param("raw",0); if(raw){ int l=sym_param("len",0)?raw:pick("n",-1,raw+1); for(int i=0;i<l;i++){ uint32_t c=symch("r",i,dom[0]); doc.push_back(c); } back=doc; } }
// the stream is well formed: blanks closed, reserved characters escaped, and unescaping it gives back the document (sentence marks aside)
static const char* RES="[]^$/\\@"; static bool res(uint32_t c){ unsigned r=0; for(const char* e=RES;*e;e++) r|=(unsigned)(c==(unsigned char)*e); return sym_concretize(r)!=0; }
static void wellformed(const Syms& o){ bool in=false; for(size_t i=0;i<o.size();i++){ uint32_t c=o[i]; if(sym_concretize(c=='\\')){ if(i+1>=o.size()) sym_fail("stream ends in an escape character"); i++; continue; } if(sym_concretize(c=='[')){ if(in) sym_fail("blank opened inside a blank"); in=true; } else if(sym_concretize(c==']')){ if(!in) sym_fail("blank closed outside a blank"); in=false; } else if(res(c)) sym_fail("reserved character not escaped"); } if(in) sym_fail("unclosed blank"); }
extern "C" void harness_main(){ rt::bytes=1; mode=sym_param("mode",1); domain(0,"tc","abCd.,"); domain(1,"mc","ab ="); domain(2,"sc"," \\n\\t"); domain(3,"dc","0129"); domain(4,"lc","abpz"); esc=sym_params("esc"); if(!esc) esc="[]\\/@<>^${}";
  const char* o=sym_params("opt"); std::vector<const char*> av{"des"}; if(o){ static char b[8][4]; int k=0; for(;*o;o++){ b[k][0]='-'; b[k][1]=*o; b[k][2]=0; av.push_back(b[k++]); if(*o=='n') nodot=true; if(*o=='i') eosI=true; if(*o=='o') markE=true; } }
  build(); showSyms("doc",doc);
  if(mode==2){ flush(); showSyms("stream",out); rt::Res r=rt::runOn(RE,{"re"},out); if(r.kind||r.code) sym_fail("reformatter did not end normally"); showSyms("expected",back); sym_assert(sameSyms(r.out,back),"reformatter does not write the unescaped text and blanks of the stream"); return; }
  rt::Res d=rt::runOn(DES,av,doc); if(d.kind||d.code) sym_fail("deformatter did not end normally");
  int chk=sym_param("chk",3);
  if((chk&1)&&!sym_param("raw",0)){ isDot=true; if(eosI) dot(); flush(); showSyms("expected",out); sym_assert(sameSyms(d.out,out),"deformatter output differs from the documented stream"); }
  if(chk&1) wellformed(d.out); if(!(chk&2)||markE) return;
  rt::Res r=rt::runOn(RE,{"re"},d.out); if(r.kind||r.code) sym_fail("reformatter did not end normally"); showSyms("restored",r.out); sym_assert(sameSyms(r.out,back),"deformatting and reformatting does not restore the document"); }
