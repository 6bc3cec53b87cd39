// Bodies of the iostream/string templates that libstdc++ keeps only in its shared object, instantiated from the
// installed headers so that the engine can execute them on symbolic characters.
#include <string>
#include <sstream>
#include <istream>
#include <ostream>
#include <iostream>
namespace std {
template class basic_string<char>; template class basic_string<char16_t>;
template class basic_streambuf<char>; template class basic_ios<char>; template class basic_ostream<char>; template class basic_istream<char>; template class basic_iostream<char>;
template class basic_stringbuf<char>; template class basic_ostringstream<char>; template class basic_istringstream<char>; template class basic_stringstream<char>;
template ostream& operator<< <char_traits<char>>(ostream&,char); template ostream& operator<< <char_traits<char>>(ostream&,unsigned char); template ostream& operator<< <char_traits<char>>(ostream&,const char*);
template ostream& operator<< <char_traits<char>>(ostream&,const unsigned char*);
template ostream& operator<< <char,char_traits<char>,allocator<char>>(ostream&,const string&);
template<> istream& getline(istream& in,string& s,char d){ istream::sentry ok(in,true); ios_base::iostate st=ios_base::goodbit; bool got=false; if(ok){ s.erase(); for(;;){ int c=in.rdbuf()->sbumpc(); if(c==-1){ st|=ios_base::eofbit; break; } got=true; if((char)c==d) break; s.push_back((char)c); } } if(!got) st|=ios_base::failbit; if(st) in.setstate(st); return in; }
template<> istream& operator>>(istream& in,string& s){ istream::sentry ok(in,false); ios_base::iostate st=ios_base::goodbit; bool got=false; if(ok){ s.erase(); for(;;){ int c=in.rdbuf()->sgetc(); if(c==-1){ st|=ios_base::eofbit; break; } if(c==32||(c>=9&&c<=13)) break; s.push_back((char)c); got=true; in.rdbuf()->sbumpc(); } } in.width(0); if(!got) st|=ios_base::failbit; if(st) in.setstate(st); return in; }
template istream& getline<char,char_traits<char>,allocator<char>>(istream&,string&);
template istream& operator>> <char,char_traits<char>>(istream&,char&);
template ostream& endl<char,char_traits<char>>(ostream&); template ostream& flush<char,char_traits<char>>(ostream&); template ostream& ends<char,char_traits<char>>(ostream&); template istream& ws<char,char_traits<char>>(istream&);
bool ios_base::sync_with_stdio(bool){ return true; }
bool uncaught_exception() noexcept { return false; } int uncaught_exceptions() noexcept { return 0; }
template ostream& __ostream_insert<char,char_traits<char>>(ostream&,const char*,streamsize);
}

// integer insertion: members that libstdc++ specialises in its shared object, defined under their symbol names
#define INS(N,T,SYM) std::ostream& N(std::ostream* o,T v) asm(SYM); std::ostream& N(std::ostream* o,T v){ std::ostream::sentry ok(*o); if(ok){ char b[48]; int n=0; bool neg=v<0; unsigned long u=neg?0ul-(unsigned long)v:(unsigned long)v; unsigned base=(o->flags()&std::ios_base::hex)?16:(o->flags()&std::ios_base::oct)?8:10; do { unsigned d=u%base; b[n++]=d<10?'0'+d:'a'+d-10; u/=base; } while(u); if(neg) b[n++]='-'; char r[48]; for(int i=0;i<n;i++) r[i]=b[n-1-i]; std::__ostream_insert(*o,r,n); } return *o; }
INS(insL,long,"_ZNSo9_M_insertIlEERSoT_") INS(insUL,unsigned long,"_ZNSo9_M_insertImEERSoT_") INS(insLL,long long,"_ZNSo9_M_insertIxEERSoT_") INS(insULL,unsigned long long,"_ZNSo9_M_insertIyEERSoT_")
std::ostream& insB(std::ostream* o,bool v) asm("_ZNSo9_M_insertIbEERSoT_"); std::ostream& insB(std::ostream* o,bool v){ char c=v?'1':'0'; return std::__ostream_insert(*o,&c,1); }
extern "C" char* sym_format(const char*,...);
std::ostream& insD(std::ostream* o,double v) asm("_ZNSo9_M_insertIdEERSoT_"); std::ostream& insD(std::ostream* o,double v){ char* t=sym_format((o->flags()&std::ios_base::fixed)?"%.*f":(o->flags()&std::ios_base::scientific)?"%.*e":"%.*g",(int)o->precision(),v); size_t n=0; while(t[n]) n++; return std::__ostream_insert(*o,t,n); }
#define EXT(N,T,SYM) std::istream& N(std::istream* i,T& v) asm(SYM); std::istream& N(std::istream* i,T& v){ std::istream::sentry ok(*i,false); std::ios_base::iostate st=std::ios_base::goodbit; if(ok){ bool neg=false,got=false; unsigned long u=0; int c=i->rdbuf()->sgetc(); if(c=='-'||c=='+'){ neg=c=='-'; c=i->rdbuf()->snextc(); } while(c>='0'&&c<='9'){ u=u*10+(c-'0'); got=true; c=i->rdbuf()->snextc(); } if(c==-1) st|=std::ios_base::eofbit; if(got) v=(T)(neg?0ul-u:u); else { v=0; st|=std::ios_base::failbit; } } if(st) i->setstate(st); return *i; }
EXT(extL,long,"_ZNSi10_M_extractIlEERSiRT_") EXT(extUL,unsigned long,"_ZNSi10_M_extractImEERSiRT_")
extern "C" std::istream& symx_ovr__ZNSirsERi(std::istream* i,int& n){ long v=0; extL(i,v); n=(int)v; return *i; }
