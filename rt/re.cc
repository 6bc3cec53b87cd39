// Model of the ICU regular expression classes that ApertiumRE uses: leftmost match, Perl-style backtracking, over
// symbolic subjects.  Only the entry points, not ICU's layout, are reproduced; objects hold a pointer in their second word.
#include "harness.h"
#include <vector>
#include <cstdlib>
#include <new>
extern "C" int32_t u_foldCase_74(int32_t,uint32_t);
namespace {
enum { CH,ANY,SET,SPLIT,JMP,BOL,EOL,MATCH };
struct Ins { int op; uint32_t c; int a,b; };
struct Set { bool neg; std::vector<std::pair<uint32_t,uint32_t>> r; };
struct Prog { std::vector<Ins> p; std::vector<Set> sets; bool ci,dotall; };
struct Text { std::vector<char16_t> u; char16_t* buf=nullptr; };
struct Obj { void* vt; void* p; };
struct Parser { const std::vector<char16_t>& s; size_t i=0; Prog& P; bool bad=false;
  uint32_t at(size_t k){ uint32_t c=s[k]; if((c&0xFC00)==0xD800&&k+1<s.size()) c=0x10000+((c&0x3ff)<<10)+(s[k+1]&0x3ff); return c; }
  uint32_t next(){ uint32_t c=at(i); i+=c>0xffff?2:1; return c; }
  int emit(int op,uint32_t c=0,int a=0,int b=0){ P.p.push_back({op,c,a,b}); return (int)P.p.size()-1; }
  void ins(int at,Ins x){ P.p.insert(P.p.begin()+at,x); for(int k=at+1;k<(int)P.p.size();k++) if(P.p[k].op==SPLIT||P.p[k].op==JMP){ if(P.p[k].a>=at) P.p[k].a++; if(P.p[k].op==SPLIT&&P.p[k].b>=at) P.p[k].b++; } }
  uint32_t fold(uint32_t c){ return P.ci?(uint32_t)u_foldCase_74(c,0):c; }
  void alt(){ std::vector<int> ends; int st=(int)P.p.size(); seq(); while(i<s.size()&&s[i]=='|'){ i++; ins(st,{SPLIT,0,st+1,0}); ends.push_back(emit(JMP)); for(auto& e:ends) (void)e; P.p[st].b=(int)P.p.size(); st=(int)P.p.size(); seq(); for(size_t k=0;k+1<ends.size();k++){} }
    for(int e:ends) P.p[e].a=(int)P.p.size(); }
  void seq(){ while(i<s.size()&&s[i]!='|'&&s[i]!=')'&&!bad) rep(); }
  void rep(){ int st=(int)P.p.size(); atom(); while(i<s.size()&&(s[i]=='?'||s[i]=='+'||s[i]=='*'||s[i]=='{')){ char16_t q=s[i++]; if(q=='{'){ bad=true; return; } bool lazy=i<s.size()&&s[i]=='?'; if(lazy) i++; else if(i<s.size()&&s[i]=='+') { bad=true; return; }
      if(q=='?'){ ins(st,{SPLIT,0,st+1,0}); P.p[st].b=(int)P.p.size(); if(lazy) std::swap(P.p[st].a,P.p[st].b); }
      else if(q=='+'){ int k=emit(SPLIT,0,st,0); P.p[k].b=k+1; if(lazy) std::swap(P.p[k].a,P.p[k].b); }
      else { ins(st,{SPLIT,0,st+1,0}); emit(JMP,0,st); P.p[st].b=(int)P.p.size(); if(lazy) std::swap(P.p[st].a,P.p[st].b); } } }
  uint32_t esc(){ if(i>=s.size()){ bad=true; return 0; } uint32_t c=next(); if((c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9')){ if(c=='n') return '\n'; if(c=='t') return '\t'; bad=true; } return c; }
  void atom(){ uint32_t c=next();
    if(c=='('){ if(i+1<s.size()&&s[i]=='?'){ if(s[i+1]==':') i+=2; else { bad=true; return; } } alt(); if(i<s.size()&&s[i]==')') i++; else bad=true; }
    else if(c=='['){ Set t; t.neg=false; if(i<s.size()&&s[i]=='^'){ t.neg=true; i++; } bool first=true; while(!bad){ if(i>=s.size()){ bad=true; break; } uint32_t d=next(); if(d==']'&&!first) break; if(d==']'||d=='['||(d=='&'&&i<s.size()&&s[i]=='&')||(d=='-'&&!first&&i<s.size()&&s[i]!=']')){ bad=true; break; } first=false; if(d=='\\') d=esc(); uint32_t e=d; if(i+1<s.size()&&s[i]=='-'&&s[i+1]!=']'){ i++; e=next(); if(e=='['||e=='-') bad=true; if(e=='\\') e=esc(); if(e<d) bad=true; } t.r.push_back({d,e}); if(P.ci&&d==e) t.r.push_back({fold(d),fold(d)}); } P.sets.push_back(t); emit(SET,(uint32_t)P.sets.size()-1); }
    else if(c=='.') emit(ANY); else if(c=='^') emit(BOL); else if(c=='$') emit(EOL); else if(c=='\\') { uint32_t e=esc(); emit(CH,fold(e)); }
    else if(c=='*'||c=='+'||c=='?'||c=='{'||c=='}') bad=c!='}'?true:false, emit(CH,c); else emit(CH,fold(c)); } };
struct Matcher { Prog* pr; Text t; int s=-1,e=-1; int from=0; bool done=false;
  int bt(int pc,int pos,int last){ for(;;){ const Ins& x=pr->p[pc]; switch(x.op){ case MATCH: return pos; case JMP: pc=x.a; break;
      case SPLIT: { if(x.a<=pc&&pos==last){ pc=x.b; break; } int r=bt(x.a,pos,x.a<=pc?pos:last); if(r>=0) return r; if(x.b<=pc&&pos==last) return -1; pc=x.b; break; }
      case BOL: if(pos) return -1; pc++; break; case EOL: if(pos!=(int)t.u.size()) return -1; pc++; break;
      default: { if(pos>=(int)t.u.size()) return -1; uint32_t c=t.u[pos]; int n=1; if(pos+1<(int)t.u.size()&&(c&0xFC00)==0xD800&&(t.u[pos+1]&0xFC00)==0xDC00){ c=0x10000+((c&0x3ff)<<10)+(t.u[pos+1]&0x3ff); n=2; }
        bool ok; if(x.op==ANY) ok=true; else if(x.op==CH) ok=((pr->ci?(uint32_t)u_foldCase_74(c,0):c)==x.c); else { const Set& q=pr->sets[x.c]; bool in=false; uint32_t f=pr->ci?(uint32_t)u_foldCase_74(c,0):c; for(auto& r:q.r){ if(r.first==r.second?((c==r.first)|(f==r.first)):(((c>=r.first)&(c<=r.second))|((f>=r.first)&(f<=r.second)))){ in=true; break; } } ok=in!=q.neg; }
        if(!ok) return -1; pos+=n; pc++; } } } } };
static Text* txt(const void* o){ return (Text*)((const Obj*)o)->p; }
}
extern "C" {
void _ZN6icu_7413UnicodeStringC1EPKDs(Obj* o,const char16_t* s){ Text* t=new Text; while(*s) t->u.push_back(*s++); o->vt=nullptr; o->p=t; }
void _ZN6icu_7413UnicodeStringC1ERKS0_(Obj* o,const Obj* b){ Text* t=new Text; t->u=txt(b)->u; o->vt=nullptr; o->p=t; }
void _ZN6icu_7413UnicodeStringC1EOS0_(Obj* o,const Obj* b){ Text* t=new Text; t->u=txt(b)->u; o->vt=nullptr; o->p=t; }
void _ZN6icu_7413UnicodeStringD1Ev(Obj* o){ Text* t=txt(o); if(t){ delete[] t->buf; delete t; } o->p=nullptr; }
const char16_t* _ZN6icu_7413UnicodeString19getTerminatedBufferEv(Obj* o){ Text* t=txt(o); if(!t->buf){ t->buf=new char16_t[t->u.size()+1]; for(size_t i=0;i<t->u.size();i++) t->buf[i]=t->u[i]; t->buf[t->u.size()]=0; } return t->buf; }
void* _ZN6icu_7412RegexPattern7compileERKNS_13UnicodeStringEjR10UErrorCode(const Obj* s,uint32_t fl,int* err){ Obj* o=(Obj*)malloc(sizeof(Obj)); Prog* p=new Prog; p->ci=fl&2; p->dotall=fl&32; Parser q{txt(s)->u,0,*p}; q.alt(); if(q.i<q.s.size()) q.bad=true; q.emit(MATCH); o->vt=nullptr; o->p=p; if(q.bad) *err=0x10301; return o; }
void _ZN6icu_7412RegexPatternD1Ev(Obj* o){ delete (Prog*)o->p; }
void* _ZNK6icu_7412RegexPattern7matcherERKNS_13UnicodeStringER10UErrorCode(const Obj* o,const Obj* s,int*){ Obj* m=(Obj*)malloc(sizeof(Obj)); Matcher* x=new Matcher; x->pr=(Prog*)o->p; x->t.u=txt(s)->u; m->vt=nullptr; m->p=x; return m; }
int8_t _ZN6icu_7412RegexMatcher4findEv(Obj* o){ Matcher* m=(Matcher*)o->p; for(int k=m->from;k<=(int)m->t.u.size();k++){ int e=m->bt(0,k,-1); if(e>=0){ m->s=k; m->e=e; m->from=e>k?e:e+1; return 1; } } m->s=m->e=-1; m->from=(int)m->t.u.size()+1; return 0; }
int8_t _ZN6icu_7412RegexMatcher9lookingAtER10UErrorCode(Obj* o,int*){ Matcher* m=(Matcher*)o->p; int e=m->bt(0,0,-1); m->s=e>=0?0:-1; m->e=e; return e>=0; }
void _ZNK6icu_7412RegexMatcher5groupER10UErrorCode(Obj* ret,const Obj* o,int* err){ Matcher* m=(Matcher*)o->p; Text* t=new Text; if(m->s<0) *err=0x10302; else for(int k=m->s;k<m->e;k++) t->u.push_back(m->t.u[k]); ret->vt=nullptr; ret->p=t; }
int32_t _ZNK6icu_7412RegexMatcher5startER10UErrorCode(const Obj* o,int* err){ Matcher* m=(Matcher*)o->p; if(m->s<0) *err=0x10302; return m->s; }
int32_t _ZNK6icu_7412RegexMatcher3endER10UErrorCode(const Obj* o,int* err){ Matcher* m=(Matcher*)o->p; if(m->s<0) *err=0x10302; return m->e; }
void _ZN6icu_7412RegexMatcherD1Ev(Obj* o){ delete (Matcher*)o->p; }
void _ZN6icu_747UMemorydlEPv(void* p){ free(p); }
int32_t _ZNK6icu_7413UnicodeString6lengthEv(const Obj* o){ return (int32_t)txt(o)->u.size(); }
}
