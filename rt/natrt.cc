// Native replay: the same harness, the real program code, the real lttoolbox/ICU/libstdc++; symbolic variables take the
// values of a counterexample.
#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <exception>
#include <vector>
static std::map<std::string,uint64_t> vals; static std::map<std::string,std::string> params; static std::string tmpdir="/tmp"; static int failures=0;
extern "C" void harness_main();
struct Stop{};
extern "C" {
extern int optind;
uint64_t sym_var(const char* n,const uint64_t* d,uint64_t c,uint32_t){ auto i=vals.find(n); uint64_t v=i!=vals.end()?i->second:(c?d[0]:0); if(c){ bool ok=false; uint64_t m=d[0]; for(uint64_t k=0;k<c;k++){ if(d[k]==v) ok=true; if(d[k]<m) m=d[k]; } if(!ok) v=m; else if(i==vals.end()) v=m; } return v; }
void sym_assume(int c){ if(!c){ printf("ASSUME-FAILED\n"); fflush(stdout); throw Stop(); } } void sym_assert(int c,const char* l){ if(!c){ printf("FAIL %s\n",l); fflush(stdout); failures++; } } void sym_fail(const char* l){ printf("FAIL %s\n",l); fflush(stdout); failures++; throw Stop(); } void sym_note(const char*){} void sym_unsupported(const char*){}
uint64_t sym_concretize(uint64_t v){ return v; } int sym_param(const char* n,int d){ auto i=params.find(n); return i==params.end()?d:atoi(i->second.c_str()); } const char* sym_params(const char* n){ auto i=params.find(n); return i==params.end()?nullptr:i->second.c_str(); }
int sym_mode(){ return 0; } int sym_issym(uint64_t){ return 0; } void sym_stop(){ throw Stop(); } void sym_dump(uint64_t v,const char* n){ fprintf(stderr,"[dump] %s = %llu\n",n,(unsigned long long)v); } void sym_dumpmem(const void* p,uint64_t n,const char* s){ fprintf(stderr,"[mem] %s = '%.*s'\n",s,(int)n,(const char*)p); }
int sym_mem_eq(const void* a,const void* b,uint64_t n){ return memcmp(a,b,n)==0; }
static volatile int okflag;
// runs fn in a child so that exit/abort/crash can be observed
int sym_try(void(*fn)(void*),void* arg){ fflush(stdout); pid_t p=fork(); if(p==0){ rlimit r{0,0}; setrlimit(RLIMIT_CORE,&r); alarm(10); int d=open("/dev/null",O_WRONLY); dup2(d,1); dup2(d,2); std::set_terminate([]{ _exit(251); }); fn(arg); _exit(250); } int st; waitpid(p,&st,0); if(WIFEXITED(st)){ int c=WEXITSTATUS(st); if(c==250){ fn(arg); return 0; } if(c==251) return 2; return 1|(c<<8); } return WTERMSIG(st)==SIGALRM?4:3; }
}
namespace rt {
int bytes=0; bool native(){ return true; }
static void enc(std::string& o,uint32_t c){ if(bytes){ o+=(char)c; return; } if(c<0x80) o+=(char)c; else if(c<0x800){ o+=(char)(0xc0|c>>6); o+=(char)(0x80|(c&63)); } else if(c<0x10000){ o+=(char)(0xe0|c>>12); o+=(char)(0x80|((c>>6)&63)); o+=(char)(0x80|(c&63)); } else { o+=(char)(0xf0|c>>18); o+=(char)(0x80|((c>>12)&63)); o+=(char)(0x80|((c>>6)&63)); o+=(char)(0x80|(c&63)); } }
static Syms dec(const std::string& s){ Syms r; for(size_t i=0;i<s.size();){ unsigned char b=s[i++]; if(bytes||b<0x80){ r.push_back(b); continue; } int n=(b&0xF0)==0xF0?3:(b&0xE0)==0xE0?2:(b&0xC0)==0xC0?1:-1; if(n<0||i+n>s.size()){ r.push_back(0x110000+b); continue; } uint32_t c=n==3?b&7:n==2?b&15:b&31; for(int k=0;k<n;k++) c=c<<6|(s[i++]&63); r.push_back(c); } return r; }
const char* tmp(const char* n){ std::string d=params.count("tmp")?params["tmp"]:tmpdir; return strdup((d+"/"+n).c_str()); }
std::string lastIn,lastOut;
Res runOn(int(*m)(int,char**),const std::vector<const char*>& args,const Syms& in){ std::string is; for(uint32_t c:in) enc(is,c); char fi[]="/tmp/symx-in-XXXXXX", fo[]="/tmp/symx-out-XXXXXX"; int a=mkstemp(fi),b=mkstemp(fo); if(::write(a,is.data(),is.size())<0) perror("write"); lseek(a,0,SEEK_SET);
  fflush(stdout); pid_t p=fork(); if(p==0){ rlimit r{0,0}; setrlimit(RLIMIT_CORE,&r); rlimit fs{64<<20,64<<20}; setrlimit(RLIMIT_FSIZE,&fs); rlimit ms{4ull<<30,4ull<<30}; if(!getenv("SYMX_ASAN")) setrlimit(RLIMIT_AS,&ms); alarm(sym_param("alarm",10)); dup2(a,0); dup2(b,1); if(!getenv("SYMX_KEEP_STDERR")){ int d=open("/dev/null",O_WRONLY); dup2(d,2); } std::set_terminate([]{ _exit(251); }); optind=0;
    std::vector<char*> av; for(auto s:args) av.push_back(strdup(s)); av.push_back(nullptr); int r2=m((int)args.size(),av.data()); exit(r2&0xff); }
  int st; waitpid(p,&st,0); close(a); close(b); std::ifstream f(fo,std::ios::binary); std::stringstream ss; ss<<f.rdbuf(); Res r; r.kind=0; r.code=0; if(WIFEXITED(st)){ r.code=WEXITSTATUS(st); if(r.code==251){ r.kind=2; r.code=0; } } else r.kind=(WTERMSIG(st)==SIGALRM||WTERMSIG(st)==SIGXFSZ)?4:3; std::string os=ss.str(); r.out=dec(os); unlink(fi); unlink(fo);
  lastIn=is; lastOut=os; if(getenv("SYMX_SHOW")){ fprintf(stderr,"[run]"); for(auto s:args) fprintf(stderr," %s",s); fprintf(stderr,"\n[in ] "); auto sh=[](const std::string& t){ for(unsigned char c:t) if(c==0) fprintf(stderr,"\\0"); else if(c<32&&c!='\n') fprintf(stderr,"\\x%02x",c); else fputc(c,stderr); fprintf(stderr,"\n"); }; sh(is.substr(0,2000)); fprintf(stderr,"[out] (kind %d code %d) ",r.kind,r.code); sh(os.substr(0,2000)); }
  return r; }
void vwritten(const char*){}
void vfile(const char* n,const Syms& d){ std::string t; for(uint32_t c:d) enc(t,c); std::ofstream(n,std::ios::binary)<<t; if(getenv("SYMX_SHOW")) fprintf(stderr,"[file %s] %s\n",n,t.c_str()); }
Res run(int(*m)(int,char**),const std::vector<const char*>& args,void(*g)(Syms&)){ Syms in; if(g) g(in); return runOn(m,args,in); }
}
void showSyms(const char* n,const Syms& s){ if(!getenv("SYMX_SHOW")) return; fprintf(stderr,"[%s] ",n); for(uint32_t c:s) if(c>=32&&c<127) fputc(c,stderr); else fprintf(stderr,"<%x>",c); fprintf(stderr,"\n"); }
int main(int argc,char** argv){ for(int i=1;i<argc;i++){ std::string a=argv[i]; size_t p=a.find('='); if(p==std::string::npos) continue; if(a.rfind("param:",0)==0) params[a.substr(6,p-6)]=a.substr(p+1); else vals[a.substr(0,p)]=strtoull(a.c_str()+p+1,0,10); }
  try { harness_main(); } catch(Stop&){} printf("DONE failures=%d\n",failures); fflush(stdout); _exit(failures?1:0); }
extern "C" unsigned _ZNSt13random_device9_M_getvalEv(void*){ return 7; }          // the same fixed seed as in the symbolic runs
