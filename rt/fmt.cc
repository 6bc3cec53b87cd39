// libc entry points of the generated flex scanners: block input from stdin, POSIX extended regular expressions.
#include "rt.h"
#include <regex.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <lttoolbox/lt_locale.h>
void LtLocale::tryToSetLocale(){}
extern "C" { int getc(FILE*); static int en; int* __errno_location(){ return &en; } 
ssize_t read(int fd,void* p,size_t n){ if(fd){ sym_unsupported("read of another descriptor"); return -1; } unsigned char* b=(unsigned char*)p; size_t i=0; for(;i<n;i++){ int c=getc(stdin); if(c==-1) break; b[i]=(unsigned char)c; } return (ssize_t)i; }
// backtracking matcher over the pattern text: alternation, groups, bracket expressions, escapes, . * + ?
static const char* alt(const char* p); 
static const char* atomEnd(const char* p){ if(*p=='\\') return p+2; if(*p=='['){ p++; if(*p=='^') p++; if(*p==']') p++; while(*p&&*p!=']') p++; return p+1; } if(*p=='('){ int d=0; for(;*p;){ if(*p=='\\'||*p=='['){ p=atomEnd(p); continue; } if(*p=='(') d++; if(*p==')'&&--d==0) return p+1; p++; } return p; } return p+1; }
static bool one(const char* p,unsigned char c){ if(*p=='.') return true; if(*p=='\\') return c==(unsigned char)p[1]; if(*p!='[') return c==(unsigned char)*p; const char* e=atomEnd(p)-1; p++; bool neg=false; if(*p=='^'){ neg=true; p++; } unsigned hit=0; for(bool f=true;p<e||f;f=false){ unsigned char lo=*p,hi=lo; if(p[1]=='-'&&p+2<e){ hi=p[2]; p+=3; } else p++; hit|=(unsigned)(c>=lo)&(unsigned)(c<=hi); if(p>=e) break; } return (hit!=0)!=neg; }
// longest end of a match of p[0..pe) followed by nothing, starting at s; null if none.  Concatenation is tried for every end of its head.
struct K { const char* p; const char* pe; K* next; };
static void m(const char* p,const char* pe,const char* s,K* k,const char*& best){ 
  { const char* q=p; while(q<pe&&*q!='|') q=atomEnd(q); if(q<pe){ m(p,q,s,k,best); m(q+1,pe,s,k,best); return; } }
  if(p==pe){ if(k) m(k->p,k->pe,s,k->next,best); else if(!best||s>best) best=s; return; }
  const char* a=atomEnd(p); bool star=a<pe&&(*a=='*'||*a=='+'||*a=='?'); const char* rest=star?a+1:a;
  if(star&&*a!='+') m(rest,pe,s,k,best);
  if(*p=='('){ if(star&&*a!='?'){ sym_unsupported("repeated group in a regular expression"); return; } K kk{rest,pe,k}; m(p+1,a-1,s,&kk,best); return; }
  if(*s&&one(p,*s)){ if(star&&*a!='?'){ std::string r(p,a); r+='*'; char* d=strdup((r+std::string(rest,pe)).c_str()); m(d,d+strlen(d),s+1,k,best); free(d); } else m(rest,pe,s+1,k,best); } }
int regcomp(regex_t* r,const char* p,int){ r->buffer=(decltype(r->buffer))strdup(p); return 0; }
void regfree(regex_t* r){ free(r->buffer); }
int regexec(const regex_t* r,const char* s,size_t n,regmatch_t* pm,int){ const char* p=(const char*)r->buffer; for(const char* b=s;;b++){ const char* e=0; m(p,p+strlen(p),b,nullptr,e); if(e){ if(n){ pm[0].rm_so=(int)(b-s); pm[0].rm_eo=(int)(e-s); } return 0; } if(!*b) return 1; } }
}
