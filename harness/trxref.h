// Independent reference interpreter of the transfer rule language (transfer, interchunk, postchunk), written from the
// language's documentation.  Rules come from the XML source, streams are vectors of (symbolic) characters.
#pragma once
#include "../rt/gen.h"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <unicode/uchar.h>
#include <lttoolbox/string_utils.h>
#include <map>
#include <set>
#include <deque>
#include <cstring>
#include <cstdlib>
namespace tr {
struct X { std::string n; std::vector<std::pair<std::string,std::string>> a; std::vector<X*> c; std::string at(const char* k) const { for(auto& p:a) if(p.first==k) return p.second; return ""; } bool has(const char* k) const { for(auto& p:a) if(p.first==k) return true; return false; } X* kid(const char* k) const { for(auto x:c) if(x->n==k) return x; return nullptr; } };
static X* conv(xmlNode* e){ X* x=new X; x->n=(const char*)e->name; for(xmlAttr* p=e->properties;p;p=p->next) x->a.push_back({(const char*)p->name,p->children?(const char*)p->children->content:""}); for(xmlNode* k=e->children;k;k=k->next) if(k->type==XML_ELEMENT_NODE) x->c.push_back(conv(k)); return x; }
static Syms sy(const std::string& u){ Syms r; for(size_t i=0;i<u.size();){ unsigned char b=u[i++]; uint32_t c=b; int n=0; if(b>=0xF0){ c=b&7; n=3; } else if(b>=0xE0){ c=b&15; n=2; } else if(b>=0xC0){ c=b&31; n=1; } while(n--) c=c<<6|(u[i++]&63); r.push_back(c); } return r; }
static bool eq(const Syms& a,const Syms& b){ return sameSyms(a,b); }
static bool eqn(const Syms& a,size_t i,const Syms& b){ if(i+b.size()>a.size()) return false; return b.empty()||sym_mem_eq(a.data()+i,b.data(),b.size()*4); }
static UString us(const Syms& s){ UString r; for(uint32_t c:s){ if(c>0xffff){ r.push_back((char16_t)(0xD7C0+(c>>10))); r.push_back((char16_t)(0xDC00+(c&0x3ff))); } else r.push_back((char16_t)c); } return r; }
static Syms fromU(UStringView u){ Syms r; for(size_t i=0;i<u.size();i++){ uint32_t c=u[i]; if((c&0xFC00)==0xD800&&i+1<u.size()){ c=0x10000+((c&0x3ff)<<10)+(u[++i]&0x3ff); } r.push_back(c); } return r; }
static Syms lower(const Syms& s){ Syms r; for(uint32_t c:s) r.push_back(u_tolower(c)); return r; }
static Syms copycase(const Syms& a,const Syms& b){ return fromU(StringUtils::copycase(us(a),us(b))); }
static Syms getcase(const Syms& a){ return fromU(StringUtils::getcase(us(a))); }
static Syms cut(const Syms& s,size_t a,size_t b){ Syms r; for(size_t i=a;i<b&&i<s.size();i++) r.push_back(s[i]); return r; }
struct Word { Syms s,t,r,wb; Syms raw; Syms chunk,queue; };
struct CatItem { bool hasLemma; Syms lemma; std::vector<Syms> tags; };
struct Rule { std::vector<std::string> pat; X* action; };
struct Rules { int stage; bool chunkDefault=false; std::map<std::string,std::vector<CatItem>> cats; std::map<std::string,std::vector<Syms>> attrs; std::map<std::string,Syms> vars; std::map<std::string,std::set<Syms>> lists; std::map<std::string,X*> macros; std::vector<Rule> rules; };
static void load(Rules& R,const char* file,int stage){ R.stage=stage; xmlDoc* d=xmlReadFile(file,nullptr,0); X* root=conv(xmlDocGetRootElement(d)); xmlFreeDoc(d); R.chunkDefault=root->at("default")=="chunk";
  for(X* sec:root->c) for(X* e:sec->c){
    if(e->n=="def-cat") for(X* it:e->c){ CatItem ci; std::string l=it->has("tags")?it->at("lemma"):it->at("name"); ci.hasLemma=!l.empty(); ci.lemma=sy(l); std::string tg=it->at("tags"),cur; for(char c:tg+"."){ if(c=='.'){ if(!cur.empty()){ Syms x; x.push_back('<'); add(x,sy(cur)); x.push_back('>'); ci.tags.push_back(x); } cur=""; } else cur+=c; } R.cats[e->at("n")].push_back(ci); }
    if(e->n=="def-attr") for(X* it:e->c){ Syms x; x.push_back('<'); std::string tg=it->at("tags"); for(char c:tg){ if(c=='.'){ x.push_back('>'); x.push_back('<'); } else x.push_back((unsigned char)c); } x.push_back('>'); R.attrs[e->at("n")].push_back(x); }
    if(e->n=="def-var") R.vars[e->at("n")]=sy(e->at("v"));
    if(e->n=="def-list") for(X* it:e->c) R.lists[e->at("n")].insert(sy(it->at("v")));
    if(e->n=="def-macro") R.macros[e->at("n")]=e;
    if(e->n=="rule"){ Rule r; for(X* p:e->kid("pattern")->c) r.pat.push_back(p->at("n")); r.action=e->kid("action"); R.rules.push_back(r); } } }
// position and length of the part named by an attribute inside a word form
static bool part(Rules& R,const Syms& w,const std::string& p,size_t& b,size_t& e){ size_t n=w.size(); b=0;
  if(p=="whole"){ e=n; return n>0; }
  if(p=="lem"||p=="lemh"){ for(e=0;e<n&&w[e]!='<'&&!(p=="lemh"&&w[e]=='#');e++); return e>0; }
  if(p=="lemq"){ for(b=0;b+2<n;b++) if(w[b]=='#'&&(w[b+1]=='-'||w[b+1]==' '||w[b+1]=='_')&&w[b+2]!='<'){ for(e=b+2;e<n&&w[e]!='<';e++); return true; } return false; }
  if(p=="tags"){ for(b=0;b<n;b++) if(w[b]=='<'){ e=b; while(e<n&&w[e]=='<'){ size_t k=e+1; while(k<n&&w[k]!='>') k++; if(k>=n||k==e+1) break; e=k+1; } if(e>b) return true; } return false; }
  if(p=="content"||p=="chcontent"){ for(b=0;b<n;b++) if(w[b]=='{'){ e=n; return n>b+1; } return false; }
  auto& it=R.attrs[p]; for(b=0;b<n;b++) if(w[b]=='<'){ size_t best=0; for(auto& v:it) if(v.size()>best&&b+v.size()<=n){ bool ok=true; for(size_t k=0;k<v.size()&&ok;k++) if(u_foldCase(w[b+k],0)!=u_foldCase(v[k],0)) ok=false; if(ok) best=v.size(); } if(best){ e=b+best; return true; } } return false; }
static Syms getPart(Rules& R,const Syms& w,const std::string& p){ size_t b,e; if(!part(R,w,p,b,e)) return Syms(); return cut(w,b,e); }
static void setPart(Rules& R,Syms& w,const std::string& p,const Syms& v){ size_t b,e; if(!part(R,w,p,b,e)) return; Syms r=cut(w,0,b); add(r,v); add(r,cut(w,e,w.size())); w=r; }
// does a word's analysis match one category item
struct El { bool tag; Syms v; };
static bool matchEl(const CatItem& ci,const std::vector<El>& w){ // elements: lemma characters, then tags
  size_t i=0,n=w.size();
  std::vector<int> pat; // >=0 literal char, -1 any char (one or more), -2-k tag k
  if(!ci.hasLemma) pat.push_back(-1); else for(uint32_t c:ci.lemma) pat.push_back(c=='*'?-1:(int)c);
  for(size_t k=0;k<ci.tags.size();k++) pat.push_back(-2-(int)k);
  std::vector<char> st(pat.size()+1,0); st[0]=1; auto isAnyTag=[&](int k){ return ci.tags[-2-k].size()==3&&ci.tags[-2-k][1]=='*'; };
  for(i=0;i<n;i++){ std::vector<char> nx(pat.size()+1,0); for(size_t k=0;k<=pat.size();k++) if(st[k]){ if(k<pat.size()){ bool ok; if(pat[k]==-1) ok=!w[i].tag; else if(pat[k]>=0) ok=!w[i].tag&&(uint32_t)u_tolower(w[i].v[0])==(uint32_t)pat[k]; else ok=w[i].tag&&(isAnyTag(pat[k])||eq(w[i].v,ci.tags[-2-pat[k]])); if(ok) nx[k+1]=1; }
      if(k>0&&((pat[k-1]==-1&&!w[i].tag)||(pat[k-1]<=-2&&isAnyTag(pat[k-1])&&w[i].tag))) nx[k]=1; } st=nx; }
  return st[pat.size()]; }
static std::vector<El> elems(const Syms& a,int stage){ std::vector<El> r; for(size_t i=0;i<a.size();i++){ if(a[i]=='\\'&&i+1<a.size()){ Syms c; c.push_back(a[++i]); r.push_back({false,c}); } else if(a[i]=='<'){ if(stage==3) break; Syms t; while(i<a.size()){ t.push_back(a[i]); if(a[i]=='>') break; i++; } r.push_back({true,t}); } else { Syms c; c.push_back(a[i]); r.push_back({false,c}); } } return r; }
struct Interp { Rules& R; bool w=false,bil=true; Syms out; std::map<std::string,Syms> vars,vwb; std::deque<Syms> blanks; int rl=0; std::vector<Word*> ws; bool inLu=false,inOut=false; std::string letVar; Syms luwb; int consumed=0; bool err=false; int lucount=0;
  Interp(Rules& r):R(r){ vars=r.vars; }
  void reset(){ vars=R.vars; vwb.clear(); }
  static Syms comb(const Syms& a,const Syms& b){ if(a.empty()) return b; if(b.empty()) return a; Syms r=cut(a,0,a.size()-2); r.push_back(';'); r.push_back(' '); add(r,cut(b,2,b.size())); return r; }
  Word* word(int pos){ if(pos<0||pos>=(int)ws.size()||!ws[pos]){ err=true; return nullptr; } return ws[pos]; }
  static int pos(X* x){ return atoi(x->at("pos").c_str()); }
  Word* clipWord(X* x){ return word(R.stage==3?pos(x):pos(x)-1); }
  Syms& side(Word* w,X* x){ if(R.stage!=1) return w->chunk; std::string s=x->at("side"); return s=="sl"?w->s:s=="ref"?w->r:w->t; }
  Syms clipStr(Word* w,X* x){ std::string p=x->at("part"); if(R.stage==1) return getPart(R,side(w,x),p); if(p=="whole"){ Syms r=w->chunk; add(r,w->queue); return r; } if(p=="content"&&R.stage==2){ if(w->queue.size()<2) return Syms(); return cut(w->queue,1,w->queue.size()-1); } if(p=="chcontent"||p=="content") return w->queue; Syms r=getPart(R,w->chunk,p); return r; }
  void noteWb(X* x,Word* w){ std::string p=x->at("part"); if(rl<2||R.stage==2||!(p=="lem"||p=="lemh"||p=="whole")) return; if(x->has("link-to")||x->at("side")=="ref") return; if(inLu) luwb=comb(luwb,w->wb); else if(!letVar.empty()) vwb[letVar]=comb(vwb[letVar],w->wb); }
  static Syms tagsOf(const std::string& v){ Syms r; r.push_back('<'); for(uint32_t c:sy(v)){ if(c=='.'){ r.push_back('>'); r.push_back('<'); } else r.push_back(c); } r.push_back('>'); return r; }
  Syms eval(X* x){ Syms r;
    if(x->n=="clip"){ Word* w=clipWord(x); if(!w) return r; noteWb(x,w); r=clipStr(w,x); if(x->has("link-to")){ if(r.empty()) return r; r.clear(); r.push_back('<'); add(r,sy(x->at("link-to"))); r.push_back('>'); } return r; }
    if(x->n=="lit") return sy(x->at("v")); if(x->n=="lit-tag") return tagsOf(x->at("v"));
    if(x->n=="var"){ if(rl>1&&R.stage!=2&&inLu) luwb=comb(luwb,vwb[x->at("n")]); return vars[x->at("n")]; }
    if(x->n=="b"){ if(blanks.empty()){ r.push_back(' '); return r; } r=blanks.front(); if(inOut){ blanks.pop_front(); } return r; }
    if(x->n=="get-case-from"){ Word* w=R.stage==3?word(pos(x)):word(pos(x)-1); if(!w) return r; Syms src=R.stage==1?getPart(R,w->s,"lem"):getPart(R,w->chunk,"lem"); Syms d=eval(x->c[0]); return this->w?d:caseTags(src,d); }
    if(x->n=="case-of"){ Word* w=clipWord(x); if(!w) return r; return getcase(clipStr(w,x)); }
    if(x->n=="concat"){ for(X* k:x->c) add(r,eval(k)); return r; }
    if(x->n=="lu-count") { return sy(std::to_string(lucount)); }
    if(x->n=="lu") return lu(x); if(x->n=="mlu") return mlu(x); if(x->n=="chunk") return chunk(x); err=true; return r; }
  // the case of src is given to the text of d, not to its tags
  static Syms caseTags(const Syms& src,const Syms& d){ size_t b=d.size(),e=0; for(size_t i=0;i<d.size();i++){ if(d[i]=='<'&&b==d.size()) b=i; if(d[i]=='>') e=i+1; } if(b==d.size()||e==0) return copycase(src,d); Syms cs=getcase(src); Syms r=copycase(cs,cut(d,0,b)); add(r,cut(d,b,e)); bool up=u_isupper(cs[1]); for(size_t i=e;i<d.size();i++) r.push_back(up?u_toupper(d[i]):u_tolower(d[i])); return r; }
  Syms wrap(const Syms& body){ Syms r; if(body.empty()) return r; Word* f=nullptr; if(rl==1){ size_t k=R.stage==3?1:0; if(k<ws.size()) f=ws[k]; if(f) luwb=f->wb; } r=luwb; r.push_back('^'); add(r,body); r.push_back('$'); return r; }
  Syms lu(X* x){ bool o=inLu; inLu=true; luwb.clear(); Syms b; for(X* k:x->c) add(b,eval(k)); inLu=o; return wrap(b); }
  Syms mlu(X* x){ bool o=inLu; inLu=true; luwb.clear(); Syms b; bool first=true; for(X* l:x->c){ Syms p; for(X* k:l->c) add(p,eval(k)); if(p.empty()) continue; if(!first&&p[0]!='#') b.push_back('+'); add(b,p); first=false; } inLu=o; return wrap(b); }
  Syms chunk(X* x){ Syms r; r.push_back('^'); if(R.stage==2){ for(X* k:x->c) add(r,eval(k)); r.push_back('$'); return r; }
    Syms name=x->has("name")?sy(x->at("name")):vars[x->at("namefrom")]; if(x->has("case")&&!w) name=copycase(vars[x->at("case")],name); add(r,name);
    for(X* k:x->c){ if(k->n=="tags"){ for(X* t:k->c) for(X* v:t->c) add(r,eval(v)); r.push_back('{'); } else add(r,eval(k)); } r.push_back('}'); r.push_back('$'); return r; }
  // ---- tests
  static bool contains(const Syms& h,const Syms& n){ for(size_t i=0;i+n.size()<=h.size();i++) if(eqn(h,i,n)) return true; return false; }
  bool test(X* x){ if(x->n=="and"){ for(X* k:x->c) if(!test(k)) return false; return true; } if(x->n=="or"){ for(X* k:x->c) if(test(k)) return true; return false; } if(x->n=="not") return !test(x->c[0]);
    bool cl=x->at("caseless")=="yes"; Syms a=eval(x->c[0]); if(cl) a=lower(a);
    if(x->n=="in"||x->n=="begins-with-list"||x->n=="ends-with-list"){ for(auto& v0:R.lists[x->c[1]->at("n")]){ Syms v=cl?lower(v0):v0; if(x->n=="in"?eq(a,v):x->n[0]=='b'?eqn(a,0,v):(v.size()<=a.size()&&eqn(a,a.size()-v.size(),v))) return true; } return false; }
    Syms b=eval(x->c[1]); if(cl) b=lower(b); if(x->n=="equal") return eq(a,b); if(x->n=="begins-with") return eqn(a,0,b); if(x->n=="ends-with") return b.size()<=a.size()&&eqn(a,a.size()-b.size(),b); if(x->n=="contains-substring") return contains(a,b); err=true; return false; }
  // ---- instructions; result: -1 go on, otherwise number of words the rejecting rule consumed
  int run(X* x){
    if(x->n=="out"){ inOut=true; for(X* k:x->c){ Syms v=eval(k); add(out,v); } inOut=false; return -1; }
    if(x->n=="let"){ X* l=x->c[0]; if(l->n=="var"){ letVar=l->at("n"); vwb[letVar].clear(); Syms v=eval(x->c[1]); vars[l->at("n")]=v; letVar=""; } else { Word* w=clipWord(l); Syms v=eval(x->c[1]); if(w) setPart(R,side(w,l),l->at("part"),v); } return -1; }
    if(x->n=="append"){ for(X* k:x->c){ letVar=x->at("n"); Syms v=eval(k); add(vars[x->at("n")],v); letVar=""; } return -1; }
    if(x->n=="modify-case"){ if(w) return -1; X* l=x->c[0]; if(l->n=="var"){ Syms v=eval(x->c[1]); vars[l->at("n")]=copycase(v,vars[l->at("n")]); } else { Word* wd=clipWord(l); Syms v=eval(x->c[1]); if(wd) setPart(R,side(wd,l),l->at("part"),copycase(v,clipStr(wd,l))); } return -1; }
    if(x->n=="call-macro"){ X* m=R.macros[x->at("n")]; std::vector<Word*> sub; if(R.stage==3) sub.push_back(ws[0]); for(X* p:x->c){ Word* q=R.stage==3?word(pos(p)):word(pos(p)-1); sub.push_back(q); } std::vector<Word*> old=ws; if(R.stage==3) for(auto q:sub) if(!q) return -1; ws=sub; int orl=rl; if(R.stage==3) rl=(int)sub.size()-1; for(X* k:m->c) run(k); ws=old; rl=orl; return -1; }
    if(x->n=="reject-current-rule"){ std::string s=x->at("shifting"); return s=="yes"?1:s=="no"?0:atoi(s.c_str()); }
    if(x->n=="choose"){ for(X* o:x->c){ size_t i=0; if(o->n=="when"){ if(!test(o->c[0]->c[0])) continue; i=1; } for(;i<o->c.size();i++){ int r=run(o->c[i]); if(r!=-1) return r; } return -1; } return -1; }
    err=true; return -1; }
  static bool isSpace(const Syms& b){ return b.size()==1&&b[0]==' '; }
  int apply(const Rule& r,int k){ rl=R.stage==3?(int)ws.size()-1:k; int res=-1; for(X* i:r.action->c){ res=run(i); if(res!=-1) break; }
    size_t keep=0; if(res!=-1&&R.stage!=3){ keep=(size_t)k-1; size_t d=res>1?res-1:0; keep=keep>d?keep-d:0; }   // blanks between words that are read again stay where they are
    while(blanks.size()>keep){ if(!isSpace(blanks.front())) add(out,blanks.front()); blanks.pop_front(); } blanks.clear(); return res; } };
struct Tok { Syms blank; Word w; bool nul=false; };
// left to right, longest match; of equally long matches the first rule wins; words no rule covers get the default output
template<class D,class P> static void flushSeg(Interp& I,Rules& R,std::vector<Tok*>& seg,const Syms& last,D dflt,P prep){ size_t n=seg.size(),p=0; std::set<int> ban; I.reset(); std::vector<std::vector<El>> el; for(auto t:seg) el.push_back(elems(R.stage==1?t->w.s:t->w.chunk,R.stage));
  std::vector<std::map<std::string,int>> memo(n); auto is=[&](size_t i,const std::string& c){ auto it=memo[i].find(c); if(it!=memo[i].end()) return it->second; int r=0; for(auto& ci:R.cats[c]) if(matchEl(ci,el[i])){ r=1; break; } memo[i][c]=r; return r; };
  if(n) add(I.out,seg[0]->blank);
  while(p<n){ int best=-1; size_t bl=0; for(size_t r=0;r<R.rules.size();r++){ if(ban.count(r)) continue; auto& pt=R.rules[r].pat; if(pt.size()<=bl||p+pt.size()>n) continue; bool ok=true; for(size_t k=0;k<pt.size()&&ok;k++) ok=is(p+k,pt[k]); if(ok){ best=(int)r; bl=pt.size(); } }
    auto after=[&](size_t q){ add(I.out,q<n?seg[q]->blank:last); };
    if(best<0){ dflt(I,seg[p]->w); ban.clear(); p++; after(p); continue; }
    std::vector<Word> copies; for(size_t k=p;k<p+bl;k++) copies.push_back(seg[k]->w); I.ws.clear(); for(auto& c:copies) I.ws.push_back(&c); I.blanks.clear(); for(size_t k=1;k<bl;k++) I.blanks.push_back(seg[p+k]->blank); prep(I,copies);
    int res=I.apply(R.rules[best],(int)bl); if(res<0){ p+=bl; ban.clear(); after(p); } else if(res==0) ban.insert(best); else { p+=res; if(p>n) p=n; ban.clear(); after(p); } }
  if(!n) add(I.out,last); }
template<class D,class P> static void runRef(Interp& I,Rules& R,std::vector<Tok>& toks,const Syms& tail,int z,D d,P pr){ std::vector<Tok*> seg; for(auto& t:toks) if(t.nul){ flushSeg(I,R,seg,t.blank,d,pr); I.out.push_back(0); seg.clear(); } else seg.push_back(&t); flushSeg(I,R,seg,tail,d,pr); if(z) I.out.push_back(0); }
}
