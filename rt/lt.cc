// Symbolic models of lttoolbox / ICU stdio / libc stdio entry points used by the code under test (the real ones exist
// here only as machine code).  Each model follows the disassembled behaviour of the installed library and is compared
// with it natively by tools/validate_models.
#include "rt.h"
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <stdexcept>
#include <iostream>
#include <map>
#include <set>
#include <unicode/uchar.h>
#include <unicode/ustdio.h>
#include <lttoolbox/input_file.h>
#include <lttoolbox/file_utils.h>
#include <lttoolbox/string_utils.h>
#include <lttoolbox/match_state.h>
#include <lttoolbox/match_exe.h>
#include <lttoolbox/alphabet.h>
extern "C" { extern int optind; 
int __native_getc(FILE*); int __native_fgetc(FILE*); size_t __native_fread(void*,size_t,size_t,FILE*); size_t __native_fwrite(const void*,size_t,size_t,FILE*); size_t __native_fread_unlocked(void*,size_t,size_t,FILE*); size_t __native_fwrite_unlocked(const void*,size_t,size_t,FILE*);
void __native_rewind(FILE*); int __native_fputc(int,FILE*); int __native_fputs(const char*,FILE*); int __native_feof(FILE*); int __native_ferror(FILE*); void __native_clearerr(FILE*); int __native_fflush(FILE*); int __native_fclose(FILE*); int __native_ungetc(int,FILE*); FILE* __native_fopen(const char*,const char*); int __native_unlink(const char*); UFILE* __native_u_fopen_74(const char*,const char*,const char*,const char*); void __native_u_fclose_74(UFILE*); }
namespace rt {
int bytes=0; static Syms in; static size_t pos; static bool eofSeen, started; static Syms out; static void(*gen)(Syms&); static int pushed=-2;
bool native(){ return false; }
static void start(){ if(!started){ started=true; if(gen) gen(in); } }
static int rd(){ start(); if(pushed!=-2){ int c=pushed; pushed=-2; return c; } if(pos<in.size()) return (int)in[pos++]; eofSeen=true; return -1; }
static void wr8(uint32_t b){ out.push_back(b&0xff); }
static void wrcp(uint32_t c){ if(!bytes){ out.push_back(c); return; } if(c<0x80) wr8(c); else if(c<0x800){ wr8(0xc0|c>>6); wr8(0x80|(c&63)); } else if(c<0x10000){ wr8(0xe0|c>>12); wr8(0x80|((c>>6)&63)); wr8(0x80|(c&63)); } else { wr8(0xf0|c>>18); wr8(0x80|((c>>12)&63)); wr8(0x80|((c>>6)&63)); wr8(0x80|(c&63)); } }
// byte written by a byte-oriented tool; in code point mode only ASCII tools are run this way
static void wrb(unsigned char b){ out.push_back(b); }
struct OutBuf: std::streambuf { int overflow(int c) override { if(c!=-1) wrb((unsigned char)c); return c==-1?0:c; } std::streamsize xsputn(const char* s,std::streamsize n) override { for(std::streamsize i=0;i<n;i++) wrb((unsigned char)s[i]); return n; } };
struct NullBuf: std::streambuf { int overflow(int c) override { return c==-1?0:c; } std::streamsize xsputn(const char*,std::streamsize n) override { return n; } };
struct InBuf: std::streambuf { int la=-2; int underflow() override { if(la==-2) la=rd(); return la; } int uflow() override { int c=underflow(); la=-2; return c; } int pbackfail(int c) override { if(la!=-2&&la!=-1) return -1; la=c; return c==-1?-1:c; } };
static OutBuf* ob; static InBuf* ib; static NullBuf* nb;
static void hook(){ if(!ob){ ob=new OutBuf; nb=new NullBuf; ib=new InBuf; std::cout.rdbuf(ob); std::cerr.rdbuf(nb); std::clog.rdbuf(nb); std::cin.rdbuf(ib); } std::cin.clear(); std::cout.clear(); ib->la=-2; }
struct Call { int(*m)(int,char**); int argc; char** argv; int ret; };
static void tramp(void* p){ Call* c=(Call*)p; c->ret=c->m(c->argc,c->argv); }
static Res go(int(*m)(int,char**),const std::vector<const char*>& args){ hook(); pos=0; eofSeen=false; pushed=-2; out.clear(); optind=0;
  char** av=new char*[args.size()+1]; for(size_t i=0;i<args.size();i++) av[i]=const_cast<char*>(args[i]); av[args.size()]=nullptr; Call c{m,(int)args.size(),av,0};
  int st=sym_try(tramp,&c); Res r; r.kind=st&0xff; r.code=0; if(r.kind==0) r.code=c.ret&0xff; else if(r.kind==1){ r.kind=0; r.code=st>>8; } r.out=out; return r; }
Res run(int(*m)(int,char**),const std::vector<const char*>& args,void(*g)(Syms&)){ in.clear(); started=false; gen=g; return go(m,args); }
Res runOn(int(*m)(int,char**),const std::vector<const char*>& args,const Syms& i){ in=i; started=true; gen=nullptr; return go(m,args); }
const char* tmp(const char* name){ std::string d=sym_params("tmp")?sym_params("tmp"):"/tmp"; d+="/"; d+=name; return strdup(d.c_str()); }
// virtual files: temporary files the tools create and read back (names handed out by tmpnam)
struct VF { std::string name; Syms data; size_t pos; bool eof=false; }; static std::vector<VF*> vfs; static VF* vf(const void* f){ for(VF* v:vfs) if(v==f) return v; return nullptr; } static VF* vname(const char* n){ for(VF* v:vfs) if(v->name==n) return v; return nullptr; } int vfLive(){ return (int)vfs.size(); }
static const char* vsuff; void vwritten(const char* suffix){ vsuff=suffix; } static bool vsuffixed(const char* n){ if(!vsuff) return false; size_t a=strlen(n),b=strlen(vsuff); return a>=b&&!strcmp(n+a-b,vsuff); }
void vfile(const char* n,const Syms& d){ VF* v=new VF; v->name=n; v->pos=0; v->data=d; vfs.push_back(v); }
static bool isOut(FILE* f){ return f==stdout; } static bool isErr(FILE* f){ return f==stderr; } static bool isIn(FILE* f){ return f==stdin||f==nullptr; }
}
void showSyms(const char* n,const Syms& s){ if(!sym_param("show",0)) return; std::string t; for(uint32_t c:s) t+=(char)c; sym_dumpmem(t.data(),t.size(),n); }
using namespace rt;
extern "C" {
// ---- libc stdio
char* tmpnam(char* b){ static int n; std::string t="/tmp/symx-vf"; t+=(char)('0'+n++); VF* v=new VF; v->name=t; v->pos=0; vfs.push_back(v); if(b){ strcpy(b,t.c_str()); return b; } return strdup(t.c_str()); }
FILE* fopen(const char* n,const char* m){ VF* v=vname(n); if(v){ v->pos=0; v->eof=false; if(*m=='w') v->data.clear(); return (FILE*)v; } if(vsuffixed(n)){ if(*m!='w') return nullptr; vfile(n,Syms()); return (FILE*)vname(n); } return __native_fopen(n,m); } int unlink(const char* n){ for(size_t i=0;i<vfs.size();i++) if(vfs[i]->name==n){ vfs.erase(vfs.begin()+i); return 0; } return __native_unlink(n); }
int getc(FILE* f){ if(VF* v=vf(f)){ if(v->pos<v->data.size()) return (int)v->data[v->pos++]; v->eof=true; return -1; } return isIn(f)?rd():__native_getc(f); } int fgetc(FILE* f){ return getc(f); } int getchar(){ return rd(); } int _IO_getc(FILE* f){ return getc(f); } int getc_unlocked(FILE* f){ return getc(f); } int fgetc_unlocked(FILE* f){ return getc(f); }
int ungetc(int c,FILE* f){ if(isIn(f)){ pushed=c; eofSeen=false; return c; } if(VF* v=vf(f)){ if(v->pos) v->pos--; v->eof=false; return c; } return __native_ungetc(c,f); }
size_t fread(void* p,size_t a,size_t b,FILE* f){ if(vf(f)){ char* d=(char*)p; size_t k=0; int c; for(;k<a*b&&(c=getc(f))>=0;k++) d[k]=(char)c; return a?k/a:0; } if(!isIn(f)) return __native_fread(p,a,b,f); char* d=(char*)p; size_t n=0; if(a==1) for(;n<b;n++){ int c=rd(); if(c<0) break; d[n]=(char)c; } else for(;n<b;n++) for(size_t k=0;k<a;k++){ int c=rd(); if(c<0) return n; d[n*a+k]=(char)c; } return n; }
size_t fread_unlocked(void* p,size_t a,size_t b,FILE* f){ if(!isIn(f)) return __native_fread_unlocked(p,a,b,f); return fread(p,a,b,f); }
size_t fwrite(const void* p,size_t a,size_t b,FILE* f){ if(isErr(f)) return b; if(VF* v=vf(f)){ for(size_t i=0;i<a*b;i++) v->data.push_back(((const unsigned char*)p)[i]); return b; } if(!isOut(f)) return __native_fwrite(p,a,b,f); const unsigned char* s=(const unsigned char*)p; for(size_t i=0;i<a*b;i++) wrb(s[i]); return b; }
size_t fwrite_unlocked(const void* p,size_t a,size_t b,FILE* f){ if(isErr(f)) return b; if(!isOut(f)) return __native_fwrite_unlocked(p,a,b,f); return fwrite(p,a,b,f); }
int fputc(int c,FILE* f){ if(isErr(f)) return c; if(VF* v=vf(f)){ v->data.push_back((unsigned char)c); return (unsigned char)c; } if(!isOut(f)) return __native_fputc(c,f); wrb((unsigned char)c); return (unsigned char)c; } int putc(int c,FILE* f){ return fputc(c,f); } int putchar(int c){ return fputc(c,stdout); } int _IO_putc(int c,FILE* f){ return fputc(c,f); } int fputc_unlocked(int c,FILE* f){ return fputc(c,f); } int putc_unlocked(int c,FILE* f){ return fputc(c,f); }
int fputs(const char* s,FILE* f){ if(isErr(f)) return 1; if(!isOut(f)) return __native_fputs(s,f); while(*s) wrb((unsigned char)*s++); return 1; } int fputs_unlocked(const char* s,FILE* f){ return fputs(s,f); } int puts(const char* s){ fputs(s,stdout); wrb('\n'); return 1; }
void rewind(FILE* f){ if(VF* v=vf(f)){ v->pos=0; v->eof=false; } else if(isIn(f)){ pos=0; eofSeen=false; } else __native_rewind(f); }
int feof(FILE* f){ if(VF* v=vf(f)) return v->eof; return isIn(f)?eofSeen:__native_feof(f); } int feof_unlocked(FILE* f){ return feof(f); } int ferror(FILE* f){ return isIn(f)||isOut(f)||isErr(f)||vf(f)?0:__native_ferror(f); } int ferror_unlocked(FILE* f){ return ferror(f); } void clearerr(FILE* f){ if(isIn(f)) eofSeen=false; else if(!isOut(f)&&!isErr(f)) __native_clearerr(f); }
int fflush(FILE* f){ return f==nullptr||isOut(f)||isErr(f)||isIn(f)?0:__native_fflush(f); } int fflush_unlocked(FILE* f){ return fflush(f); } int fclose(FILE* f){ return isOut(f)||isErr(f)||f==stdin||vf(f)?0:__native_fclose(f); }
FILE* freopen(const char*,const char*,FILE* f){ return f; } int isatty(int){ return 0; } int fileno(FILE* f){ return isIn(f)?0:isOut(f)?1:2; } int setvbuf(FILE*,char*,int,size_t){ return 0; }
// ---- ICU stdio.  UFILE handles are tokens.
static char uout, uerr;
UFILE* u_finit_74(FILE* f,const char*,const char*){ return (UFILE*)(isErr(f)?&uerr:&uout); } UFILE* u_get_stdout_74(){ return (UFILE*)&uout; }
UFILE* u_fopen_74(const char* n,const char* m,const char* l,const char* c){ VF* v=vname(n); if(v){ v->data.clear(); return (UFILE*)v; } return __native_u_fopen_74(n,m,l,c); }
void u_fclose_74(UFILE* f){ if(vf(f)) return; if((char*)f!=&uout&&(char*)f!=&uerr&&f) __native_u_fclose_74(f); } void u_fflush_74(UFILE*){}
static bool chkU(UFILE* f){ if((char*)f==&uout) return true; if((char*)f!=&uerr) sym_unsupported("UFILE that is neither stdout nor stderr"); return false; }
UChar32 u_fputc_74(UChar32 c,UFILE* f){ if(!chkU(f)) return c; if(c>=0&&c<=0x10FFFF) wrcp((uint32_t)c); return c; }
static void putU(const UChar* s,size_t n){ for(size_t i=0;i<n;i++){ uint32_t c=s[i]; if((c&0xFC00)==0xD800&&i+1<n&&(s[i+1]&0xFC00)==0xDC00){ c=0x10000+((c&0x3ff)<<10)+(s[i+1]&0x3ff); i++; } wrcp(c); } }
int32_t u_file_write_74(const UChar* s,int32_t n,UFILE* f){ if(chkU(f)) putU(s,n); return n; }
int32_t u_fputs_74(const UChar* s,UFILE* f){ if(chkU(f)){ size_t n=0; while(s[n]) n++; putU(s,n); wrcp('\n'); } return 1; }
static void vfmt(const char* p,va_list ap,bool u,UFILE* f,std::u16string* o){ auto put=[&](uint32_t c){ if(o) o->push_back((char16_t)c); else if(chkU(f)) wrcp(c); };
  for(;*p;p++){ if(*p!='%'){ put((unsigned char)*p); continue; } p++; int prec=-1; while(*p=='l'||*p=='-'||(*p>='0'&&*p<='9')) p++; if(*p=='.'){ p++; if(*p=='*'){ prec=va_arg(ap,int); p++; } }
    if(*p=='%') put('%'); else if(*p=='S'){ const UChar* s=va_arg(ap,const UChar*); size_t n=0; if(prec>=0) n=prec; else while(s[n]) n++; if(o) for(size_t i=0;i<n;i++) put(s[i]); else if(chkU(f)) putU(s,n); } else if(*p=='s'){ const char* s=va_arg(ap,const char*); while(*s) put((unsigned char)*s++); } else if(*p=='C'||*p=='c'){ put((uint32_t)va_arg(ap,int)); }
    else if(*p=='d'||*p=='u'){ int v=(int)sym_concretize((uint64_t)(uint32_t)va_arg(ap,int)); char b[16]; int k=0; unsigned x=v; if(*p=='d'&&v<0){ put('-'); x=-(unsigned)v; } do { b[k++]='0'+x%10; x/=10; } while(x); while(k) put(b[--k]); } else sym_fail("unmodelled u_printf conversion"); } }
int32_t u_fprintf_74(UFILE* f,const char* p,...){ va_list ap; va_start(ap,p); vfmt(p,ap,false,f,nullptr); va_end(ap); return 1; }
int32_t u_snprintf_74(UChar* b,int32_t cnt,const char* p,...){ std::u16string o; va_list ap; va_start(ap,p); vfmt(p,ap,false,nullptr,&o); va_end(ap); int32_t i=0; for(;i<(int32_t)o.size()&&i<cnt;i++) b[i]=o[i]; if(i<cnt) b[i]=0; return (int32_t)o.size(); }
int32_t u_sprintf_74(UChar* b,const char* p,...){ std::u16string o; va_list ap; va_start(ap,p); vfmt(p,ap,false,nullptr,&o); va_end(ap); for(size_t i=0;i<o.size();i++) b[i]=o[i]; b[o.size()]=0; return (int32_t)o.size(); }
}
UFILE* openOutTextFile(const std::string& n){ if(!n.empty()) sym_unsupported("output to a named text file"); return (UFILE*)&uout; }
FILE* __native__Z14openOutBinFileRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(const std::string&) asm("__native__Z14openOutBinFileRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); FILE* openOutBinFile(const std::string& n){ if(!n.empty()) return __native__Z14openOutBinFileRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(n); return stdout; }
void write(UStringView s,UFILE* f){ if(VF* v=vf(f)){ Syms keep=out; out.clear(); putU(s.data(),s.size()); v->data.insert(v->data.end(),out.begin(),out.end()); out=keep; return; } if(chkU(f)) putU(s.data(),s.size()); }
static UString fromUtf8(const char* s){ UString r; while(*s){ unsigned char b=*s++; uint32_t c; if(b<0x80) c=b; else if((b&0xE0)==0xC0){ c=(b&31)<<6|(*s++&63); } else if((b&0xF0)==0xE0){ c=(b&15)<<12; c|=(*s++&63)<<6; c|=(*s++&63); } else { c=(b&7)<<18; c|=(*s++&63)<<12; c|=(*s++&63)<<6; c|=(*s++&63); } r+=(UChar32)c; } return r; }
UString to_ustring(const char* s){ return fromUtf8(s); } UString to_ustring(const uint8_t* s){ return fromUtf8((const char*)s); }
void ustring_to_vec32(UStringView s,std::vector<int32_t>& v){ for(size_t i=0;i<s.size();i++){ int32_t c=s[i]; if((c&0xFC00)==0xD800&&i+1<s.size()&&(s[i+1]&0xFC00)==0xDC00){ c=0x10000+((c&0x3ff)<<10)+(s[i+1]&0x3ff); i++; } v.push_back(c); } }
// ---- InputFile
InputFile::InputFile():infile(stdin),buffer_size(0){} InputFile::~InputFile(){}
bool InputFile::open(const char* f){ buffer_size=0; infile=stdin; if(!f) return true; FILE* g=fopen(f,"rb"); infile=g; return g!=nullptr; }
void InputFile::open_or_exit(const char* f){ if(!open(f)) exit(1); } void InputFile::close(){ if(infile){ if(infile!=stdin) fclose(infile); infile=nullptr; } } void InputFile::wrap(FILE* f){ infile=f; buffer_size=0; }
void InputFile::internal_read(){ if(feof(infile)){ ubuffer[buffer_size++]=0xFFFF; return; } int c=getc(infile); if(c<0){ ubuffer[buffer_size++]=0xFFFF; return; }
  if(infile==stdin&&!rt::bytes){ ubuffer[buffer_size++]=c; return; }
  int n=0; uint32_t cp=c; if((c&0xF0)==0xF0){ n=3; cp=c&7; } else if((c&0xE0)==0xE0){ n=2; cp=c&15; } else if((c&0xC0)==0xC0){ n=1; cp=c&31; }
  for(int i=0;i<n;i++){ int d=getc(infile); if(d<0) throw std::runtime_error("utf8"); if((d&0xC0)!=0x80) throw std::runtime_error("utf8"); cp=cp<<6|(d&63); } if(n==0&&c>=0x80) throw std::runtime_error("utf8"); ubuffer[buffer_size++]=(UChar32)cp; }
UChar32 InputFile::get(){ if(!buffer_size) internal_read(); return ubuffer[--buffer_size]; } UChar32 InputFile::peek(){ if(!buffer_size) internal_read(); return ubuffer[buffer_size-1]; }
void InputFile::unget(UChar32 c){ if(buffer_size>=3) sym_fail("InputFile::unget overflows its buffer"); ubuffer[buffer_size++]=c; } bool InputFile::eof(){ return infile==nullptr||feof(infile); } void InputFile::rewind(){ if(infile) ::rewind(infile); buffer_size=0; }
UString InputFile::readBlock(const UChar32 a,const UChar32 b){ UString r; r+=a; UChar32 c=0; while(c!=b&&!eof()){ c=get(); if(c==0) break; r+=c; if(c=='\\') r+=get(); } return r; }
UString InputFile::finishWBlank(){ UString r=u"[["; while(!eof()){ UChar32 c=get(); if(c==0) break; r+=c; if(c=='\\') r+=get(); else if(c==']'){ if(peek()==']'){ r+=get(); break; } } } return r; }
UString InputFile::readBlank(bool w){ UString r; while(!eof()){ UChar32 c=get(); if(c=='^'||c==0||c==0xFFFF){ unget(c); break; } if(c=='['){ UChar32 d=get(); if(d=='['){ if(w) r.append(finishWBlank()); else { unget('['); unget('['); break; } } else { unget(d); r.append(readBlock('[',']')); } } else { r+=c; if(c=='\\'){ if(eof()||peek()==0) exit(1); r+=get(); } } } return r; }
// ---- StringUtils (character-wise case mapping: exact for the alphabets the harnesses use)
static bool up(UChar32 c){ return u_isupper(c); }
UStringView StringUtils::trim(UStringView s){ size_t b=0,e=s.size(); while(b<e&&u_isspace(s[b])) b++; while(e>b&&u_isspace(s[e-1])) e--; return s.substr(b,e-b); }
std::vector<UString> StringUtils::split(UStringView s,UStringView d){ std::vector<UString> r; size_t p=0; while(p<s.size()){ size_t q=s.find(d,p); if(q==UStringView::npos) q=s.size(); if(q>p) r.push_back(UString(s.substr(p,q-p))); p=q+d.size(); } return r; }
std::vector<UString> StringUtils::split_escaped(UStringView s,UChar d){ std::vector<UString> r; UString cur; for(size_t i=0;i<s.size();i++){ if(s[i]=='\\'){ cur.push_back(s[i]); if(++i<s.size()) cur.push_back(s[i]); } else if(s[i]==d){ if(!cur.empty()){ r.push_back(cur); cur.clear(); } } else cur.push_back(s[i]); } if(!cur.empty()) r.push_back(cur); return r; }
UString StringUtils::join(const std::vector<UString>& v,UStringView d){ UString r; for(size_t i=0;i<v.size();i++){ if(i) r.append(d); r.append(v[i]); } return r; }
UString StringUtils::substitute(UStringView s,UStringView o,UStringView n){ UString r; size_t p=0; for(;;){ size_t q=s.find(o,p); if(q==UStringView::npos){ r.append(s.substr(p)); return r; } r.append(s.substr(p,q-p)); r.append(n); p=q+o.size(); } }
UString StringUtils::itoa(int n){ UString r; unsigned x=n; if(n<0) x=-(unsigned)n; char b[12]; int k=0; do { b[k++]='0'+x%10; x/=10; } while(x); if(n<0) r.push_back('-'); while(k) r.push_back(b[--k]); return r; }
std::string StringUtils::itoa_string(int n){ UString u=itoa(n); std::string r; for(char16_t c:u) r.push_back((char)c); return r; }
int StringUtils::stoi(const UString& s){ size_t i=0; while(i<s.size()&&u_isspace(s[i])) i++; bool neg=false; if(i<s.size()&&(s[i]=='-'||s[i]=='+')){ neg=s[i]=='-'; i++; } int64_t v=0; bool any=false; while(i<s.size()&&s[i]>='0'&&s[i]<='9'){ v=v*10+(s[i]-'0'); i++; any=true; if(v>100000000000ll) break; } if(!any){ if(s.empty()) return 0; throw std::invalid_argument("unable to parse int"); } return (int)(neg?-v:v); }
UString StringUtils::tolower(UStringView s){ UString r; for(char16_t c:s){ r.push_back((char16_t)u_tolower(c)); } return r; } UString StringUtils::toupper(UStringView s){ UString r; for(char16_t c:s) r.push_back((char16_t)u_toupper(c)); return r; }
UString StringUtils::totitle(UStringView s){ UString r; bool inw=false; for(char16_t c:s){ bool al=u_isalnum(c); if(al&&!inw){ r.push_back((char16_t)u_toupper(c)); inw=true; } else { r.push_back((char16_t)u_tolower(c)); if(!al) inw=false; } } return r; }
UString StringUtils::getcase(UStringView s){ UString r=u"aa"; if(s.empty()) return r; if(up(s[0])){ r[0]='A'; if(s.size()>1&&up(s[s.size()-1])) r[1]='A'; } return r; }
UString StringUtils::copycase(UStringView s,UStringView t){ if(s.empty()||t.empty()) return UString(t); if(!up(s[0])) return tolower(t); if(s.size()>1&&up(s[s.size()-1])) return toupper(t); return totitle(t); }
bool StringUtils::caseequal(UStringView a,UStringView b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++) if(u_tolower(a[i])!=u_tolower(b[i])) return false; return true; }
bool StringUtils::startswith(UStringView s,UStringView p){ return s.size()>=p.size()&&s.substr(0,p.size())==p; } bool StringUtils::endswith(UStringView s,UStringView p){ return s.size()>=p.size()&&s.substr(s.size()-p.size())==p; }
UString StringUtils::merge_wblanks(UStringView a,UStringView b){ if(a.empty()) return UString(b); if(b.empty()) return UString(a); UString r(a.substr(0,a.size()-2)); r.append(u"; "); r.append(b.substr(2)); return r; }
// ---- pattern matching automaton (MatchExe itself is built natively from the concrete rule file)
MatchNode* SortedVector::search(int t){ int l=0,r=size-1; while(l<=r){ int m=(l+r)/2; if(sv[m].tag==t) return sv[m].dest; if(sv[m].tag>t) r=m-1; else l=m+1; } return nullptr; }
int const MatchState::BUF_LIMIT=1024;
MatchState::MatchState(){ state=new MatchNode*[1024]; first=last=0; } MatchState::~MatchState(){ delete[] state; } int MatchState::size() const { return last>=first?last-first:last+1024-first; }
void MatchState::init(MatchNode* n){ first=0; last=1; state[0]=n; } void MatchState::clear(){ first=last=0; }
void MatchState::applySymbol(MatchNode* n,int s){ MatchNode* a=n->transitions.search(s); if(a){ state[last]=a; last=(last+1)%1024; } }
void MatchState::step(int i){ int e=last; for(int k=first;k!=e;k=(k+1)%1024) applySymbol(state[k],i); first=e; }
void MatchState::step(int i,int a){ int e=last; for(int k=first;k!=e;k=(k+1)%1024){ applySymbol(state[k],i); applySymbol(state[k],a); } first=e; }
int MatchState::classifyFinals(std::map<MatchNode*,int> const& f,std::set<int> const& ban) const { int r=0x7fffffff; for(int k=first;k!=last;k=(k+1)%1024){ auto it=f.find(state[k]); if(it!=f.end()&&it->second<r&&ban.find(it->second)==ban.end()) r=it->second; } return r==0x7fffffff?-1:r; }
int MatchState::classifyFinals(std::map<MatchNode*,int> const& f) const { std::set<int> b; return classifyFinals(f,b); }
static bool ueq(const UString& a,UStringView b){ return a.size()==b.size()&&(a.empty()||sym_mem_eq(a.data(),b.data(),a.size()*2)); }
int32_t Alphabet::operator()(UStringView s) const { for(auto& p:slexic) if(ueq(p.first,s)) return p.second; return -1; }
int32_t Alphabet::operator()(UStringView s){ for(auto& p:slexic) if(ueq(p.first,s)) return p.second; return 0; }
bool Alphabet::isSymbolDefined(UStringView s) const { for(auto& p:slexic) if(ueq(p.first,s)) return true; return false; }
MatchNode* MatchExe::getInitial(){ return &node_list[initial_id]; } std::map<MatchNode*,int>& MatchExe::getFinals(){ return finals; }
// ---- XML tree helpers
#include <lttoolbox/xml_walk_util.h>
#include <lttoolbox/node.h>
static xmlNode* elemFrom(xmlNode* n){ while(n&&n->type!=XML_ELEMENT_NODE) n=n->next; return n; }
children::children(xmlNode* n):node(n),cur(n?elemFrom(n->children):nullptr){} children::children(const children& o):node(o.node),cur(o.cur){} children::~children(){}
children& children::operator++(){ if(cur) cur=elemFrom(cur->next); return *this; } children children::begin(){ children r(node); return r; } children children::end(){ children r(node); r.cur=nullptr; return r; }
bool children::operator!=(const children& o) const { return node!=o.node||cur!=o.cur; } bool children::operator==(const children& o) const { return node==o.node&&cur==o.cur; }
static bool sameName(const unsigned char* a,const char* b){ while(*b&&*a==(unsigned char)*b){ a++; b++; } return *a==(unsigned char)*b; }
UString getattr(xmlNode* n,const char* a){ for(xmlAttr* i=n->properties;i;i=i->next) if(sameName(i->name,a)) return i->children?fromUtf8((const char*)i->children->content):UString(); return UString(); }
UString getattr(xmlNode* n,UStringView a,UStringView f){ for(xmlAttr* i=n->properties;i;i=i->next){ UString k=fromUtf8((const char*)i->name); if(k==a) return i->children?fromUtf8((const char*)i->children->content):UString(); } return UString(f); }
Node::~Node(){}
