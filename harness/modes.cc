// apertium-gen-modes: the mode files it writes against an independent reading of modes.xml.
#include "../rt/gen.h"
#include <libxml/tree.h>
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
extern "C" int gen_modes_main(int,char**);
struct C { const char* cmd; const char* suf[2]; const char* traced; };
static const C CMD[]={ {"lt-proc",{"-morph","-anmor"},0}, {"cg-proc -w",{"-disam"},"cg-proc -w -t"}, {"apertium-tagger -g $2",{"-tagger"},0}, {"apertium-pretransfer",{"-pretransfer"},0}, {"lt-proc -b",{"-biltrans"},0},
 /*5*/{"lrx-proc -m",{"-lex","-lextor"},"lrx-proc -m -t"}, {"apertium-transfer -b",{"-chunker","-transfer"},"apertium-transfer -b -t"}, {"apertium-transfer -n",{"-transfer2"},"apertium-transfer -n -t"}, {"apertium-interchunk",{"-interchunk"},"apertium-interchunk -t"}, {"apertium-postchunk",{"-postchunk"},"apertium-postchunk -t"},
 /*10*/{"lt-proc $1",{"-dgen","-generador"},"lt-proc -d"}, {"lt-proc -p",{"-pgen"},0}, {"hfst-proc -w",{"-morph","-anmor"},0}, {"lsx-proc",{"-autoseq"},0}, {"lsx-proc -p",{"-pgen"},0},
 /*15*/{"rtx-proc",{"-transfer"},"rtx-proc -r"}, {"apertium-anaphora",{"-anaph"},"apertium-anaphora -d"}, {"apertium-extract-caps",{"-decase"},0}, {"apertium-restore-caps",{"-recase"},0}, {"cat",{"-NAMEME"},0},
 /*20*/{"lt-proc -g",{"-morph"},0}, {"apertium-posttransfer",{"-posttransfer"},0}, {"hfst-proc -g",{"-morph"},0}, {"lt-proc $1 -C",{"-dgen","-generador"},"lt-proc -d -C"} };
struct A { bool file; Syms v; int loc; };                       // loc: where .automorf. starts, or -1
struct P { int cmd; Syms suff; bool hasSuff; std::string sname; std::vector<A> args; };
struct M { std::string name; int inst,dbg; bool pref; std::vector<P> prog; };
static std::vector<M> modes;
static std::vector<int> menuOf(const char* n,const char* d){ const char* p=sym_params(n); if(!p) p=d; std::vector<int> r; int v=-1; for(;;p++){ if(*p>='0'&&*p<='9') v=(v<0?0:v*10)+(*p-'0'); else { if(v>=0) r.push_back(v); v=-1; if(!*p) break; } } return r; }
static Syms lit(const char* t){ Syms r; addlit(r,t); return r; }
static void build(){ modes.clear(); gctr=0; int nm=sym_param("nm",1),np=sym_param("np",1),na=sym_param("na",1),np0=sym_param("np0",1); std::vector<int> cm=menuOf("cmds","0"),nn=menuOf("names","0"),ak=menuOf("args","0,1,2,3,4"); static const char* NM[]={"b","b-morph","b-disam","@b-morph","a"}; std::vector<bool> used(5);
  for(int i=0;i<nm;i++){ M m; int k=nn[pick("mn",i,(int)nn.size())]; sym_assume(!used[k]); used[k]=true; m.name=NM[k]; m.inst=pick("in",i,sym_param("inst",3)); m.dbg=pick("db",i,sym_param("db",3)); m.pref=sym_param("pref",0)&&pick("pf",i,2);
    int n=np0+(np>np0?pick("np",i,np-np0+1):0); for(int j=0;j<n;j++){ P p; int x=i*4+j; p.cmd=cm[pick("cm",x,(int)cm.size())]; p.hasSuff=sym_param("suff",0)&&pick("su",x,2); if(p.hasSuff) p.sname=pick("sn",x,2)?"morph":"q";
      int c=na?pick("na",x,na+1):0; for(int q=0;q<c;q++){ A a; a.loc=-1; int g=gctr++; switch(ak[pick("ak",x*3+q,(int)ak.size())]){
        case 0: { a.file=true; a.v.push_back('e'); uint32_t d1=symch("d",g,U".x"),d2=symch("f",g,U".-"); a.v.push_back(d1); addlit(a.v,"automorf"); a.v.push_back(d2); addlit(a.v,"bin"); if(sym_concretize(d1=='.')&&sym_concretize(d2=='.')) a.loc=1; break; }
        case 1: a.file=true; a.v.push_back('x'); a.v.push_back(symch("d",g,U"a.&<\"> ")); addlit(a.v,".t1x"); break;
        case 2: a.file=true; addlit(a.v,"/o/s.bin"); break;
        case 3: a.file=false; a.v.push_back('-'); a.v.push_back(symch("d",g,U"tz&<\"'")); break;
        case 4: a.file=false; addlit(a.v,"$1"); break;
        case 5: a.file=true; addlit(a.v,"s/"); a.v.push_back(symch("d",g,U"ab.")); break;
        default: a.file=false; break; }          // an empty argument
        p.args.push_back(a); } m.prog.push_back(p); } modes.push_back(m); } }
// ---- modes.xml as a tree (for the engine) and as text (for replays)
static xmlAttr* attr(xmlNode* n,const char* name,const Syms& v){ xmlAttr* a=new xmlAttr(); a->type=XML_ATTRIBUTE_NODE; a->name=(const xmlChar*)name; { xmlNode* t=new xmlNode(); t->type=XML_TEXT_NODE; t->name=(const xmlChar*)"text"; char* b=new char[v.size()+1]; for(size_t i=0;i<v.size();i++) b[i]=(char)v[i]; b[v.size()]=0; t->content=(xmlChar*)b; a->children=t; t->parent=(xmlNode*)a; } a->parent=n; xmlAttr** q=&n->properties; while(*q) q=&(*q)->next; *q=a; return a; }
static xmlNode* elem(xmlNode* parent,const char* name){ xmlNode* n=new xmlNode(); n->type=XML_ELEMENT_NODE; n->name=(const xmlChar*)name; n->parent=parent; if(parent){ if(!parent->children) parent->children=n; else { parent->last->next=n; n->prev=parent->last; } parent->last=n; } return n; }
static const char* YN[]={0,"yes","no"};
static xmlNode* tree(){ xmlNode* r=elem(nullptr,"modes"); for(M& m:modes){ xmlNode* e=elem(r,"mode"); attr(e,"name",lit(m.name.c_str())); if(m.inst) attr(e,"install",lit(YN[m.inst])); if(m.dbg) attr(e,"gendebug",lit(YN[m.dbg])); xmlNode* pl=elem(e,"pipeline");
    for(P& p:m.prog){ xmlNode* x=elem(pl,"program"); attr(x,"name",lit(CMD[p.cmd].cmd)); if(p.hasSuff) attr(x,"debug-suff",lit(p.sname.c_str())); for(A& a:p.args) attr(elem(x,a.file?"file":"arg"),"name",a.v); }
    if(m.pref){ xmlNode* f=elem(e,"preferences"); attr(elem(f,"pref"),"path",lit("x")); } } return r; }
extern "C" xmlNode* symx_ovr__Z8load_xmlPKc(const char*){ build(); return tree(); }
static void q(std::string& o,const Syms& v){ for(uint32_t c:v) if(c=='&') o+="&amp;"; else if(c=='<') o+="&lt;"; else if(c=='"') o+="&quot;"; else o+=(char)c; }
static const char* xmlName; static void writeXml(){ std::string o="<?xml version=\"1.0\"?>\n<modes>\n"; for(M& m:modes){ o+="<mode name=\""+m.name+"\""; if(m.inst) o+=std::string(" install=\"")+YN[m.inst]+"\""; if(m.dbg) o+=std::string(" gendebug=\"")+YN[m.dbg]+"\""; o+=">\n<!-- c --><pipeline>\n";
    for(P& p:m.prog){ o+="<program name=\""+std::string(CMD[p.cmd].cmd)+"\""; if(p.hasSuff) o+=" debug-suff=\""+p.sname+"\""; o+=">"; for(A& a:p.args){ o+=a.file?"<file name=\"":"<arg name=\""; q(o,a.v); o+="\"/>"; } o+="</program>\n"; } o+="</pipeline>"; if(m.pref) o+="<preferences><pref path=\"x\"/></preferences>"; o+="</mode>\n"; } o+="</modes>\n"; rt::vfile(xmlName,lit(o.c_str())); }
static void gen(Syms&){ if(rt::native()){ build(); writeXml(); } }
// ---- what the files should be
struct F { std::string name; std::vector<P> steps; bool traced,untrimmed; bool install; };
static std::map<std::string,F> files; static std::string fdir;
static Syms text(const F& f,int times){ Syms o; for(size_t i=0;i<f.steps.size();i++){ const P& p=f.steps[i]; if(i) addlit(o," | "); const C& c=CMD[p.cmd]; bool tr=f.traced&&i+1==f.steps.size()&&c.traced; addlit(o,tr?c.traced:c.cmd); if(tr&&times==2){ std::string t=c.traced; if(t.find(" -d")==std::string::npos||p.cmd==16) addlit(o,t.substr(t.size()-3).c_str()); }
    for(const A& a:p.args){ o.push_back(' '); if(a.file){ o.push_back('\''); if(a.v[0]!='/') addlit(o,fdir.c_str()); } for(size_t k=0;k<a.v.size();k++){ if(f.untrimmed&&a.loc>=0&&(int)k==a.loc+9) addlit(o,"-untrimmed"); o.push_back(a.v[k]); } if(a.file) o.push_back('\''); } } o.push_back('\n'); return o; }
static void expect(){ files.clear(); for(M& m:modes) files[m.name]=F{m.name,m.prog,false,false,m.inst==1};
  std::map<std::string,M*> ord; for(M& m:modes) ord[m.name]=&m;
  for(auto& o:ord){ M& m=*o.second; if(m.dbg!=1) continue; for(size_t i=0;i<m.prog.size();i++){ P& p=m.prog[i]; for(int k=0;k<2;k++){ std::string s; if(p.hasSuff){ if(k) continue; s="-"+p.sname; } else { if(!CMD[p.cmd].suf[k]) continue; s=CMD[p.cmd].suf[k]; }
        std::string n=m.name+s; if(files.count(n)) continue; F f{n,std::vector<P>(m.prog.begin(),m.prog.begin()+i+1),true,false,false}; files[n]=f; f.name="@"+n; f.untrimmed=true; if(!files.count(f.name)) files[f.name]=f; } } } }
static bool slurp(const std::string& n,Syms& out){ FILE* f=fopen(n.c_str(),"rb"); if(!f) return false; int c; while((c=getc(f))!=-1) out.push_back((uint32_t)c); fclose(f); return true; }
extern "C" void harness_main(){ rt::bytes=1; rt::vwritten(".mode"); int rel=sym_param("rel",0),full=sym_param("full",0); std::string base=rt::tmp("x"); base.resize(base.size()-1); xmlName=rel?"modes.xml":rt::tmp("modes.xml");
  std::vector<const char*> a{"apertium-gen-modes"}; if(full) a.push_back("-f"); a.push_back(xmlName); fdir=base; if(full==1){ a.push_back("/usr/i"); fdir="/usr/i/"; } if(full==2){ a.push_back("i/j/"); fdir=base+"i/j/"; }
  rt::Res r=rt::run(gen_modes_main,a,gen); if(rt::native()){ if(modes.empty()) build(); } sym_assert(r.kind==0&&r.code==0,"succeeds"); if(r.kind||r.code) return; expect(); std::string dir=rel?"":base;
  std::string od=dir+(full?"modes/":""); if(!full) dir+="modes/";
  // every name a mode file could have
  std::map<std::string,int> names; for(auto& f:files) names[f.first]; static const char* SUF[]={"-morph","-anmor","-q","-disam","-biltrans","-dgen","-transfer","-chunker","-NAMEME",""}; for(M& m:modes) for(auto s:SUF){ names[m.name+s]; names["@"+m.name+s]; }
  for(auto& x:names){ const std::string& n=x.first; auto it=files.find(n); bool want=it!=files.end()&&(!full||it->second.install); Syms got; bool have=slurp(dir+n+".mode",got); showSyms(n.c_str(),got); if(want!=have){ sym_fail(want?"a mode file is missing":"a mode file that should not be there"); return; }
    if(full&&slurp(od+n+".mode",got)){ sym_fail("a mode file in the wrong place"); return; } if(!want) continue; Syms w1=text(it->second,1); showSyms("want",w1); Syms w2=text(it->second,2); sym_assert(sameSyms(got,w1)|(it->second.untrimmed?sameSyms(got,w2):0),"mode file"); } }
