// std::basic_filebuf<char> over the modelled C stdio (its members live only in libstdc++'s shared object).
#define _FSTREAM_TCC 1   // keep only the class: the member definitions are the ones below
#include <fstream>
#include <cstdio>
#include <cstdlib>
namespace std {
__basic_file<char>::__basic_file(__c_lock*) throw(){ _M_cfile=nullptr; _M_cfile_created=false; } __basic_file<char>::~__basic_file(){}
typedef basic_filebuf<char> FB;
template<> FB::basic_filebuf():basic_streambuf<char>(),_M_file(&_M_lock),_M_mode(ios_base::openmode(0)),_M_buf(nullptr),_M_buf_size(0),_M_ext_buf(nullptr){}
template<> FB* FB::open(const char* n,ios_base::openmode m){ if(_M_file._M_cfile) return nullptr; FILE* f=fopen(n,m&ios_base::app?"ab":m&ios_base::out?"wb":"rb"); if(!f) return nullptr; _M_file._M_cfile=f; _M_mode=m;
  if(m&ios_base::in){ size_t cap=256,k=0; char* b=(char*)malloc(cap); int c; while((c=getc(f))>=0){ if(k==cap){ char* q=(char*)malloc(cap*2); for(size_t i=0;i<k;i++) q[i]=b[i]; free(b); b=q; cap*=2; } b[k++]=(char)c; } _M_buf=b; this->setg(b,b,b+k); fclose(f); _M_file._M_cfile=(FILE*)&_M_mode; }
  return this; }
template<> FB* FB::close(){ if(!_M_file._M_cfile) return nullptr; if(!(_M_mode&ios_base::in)) fclose(_M_file._M_cfile); _M_file._M_cfile=nullptr; this->setg(nullptr,nullptr,nullptr); free(_M_buf); _M_buf=nullptr; return this; }
template<> streamsize FB::showmanyc(){ return 0; } template<> FB::int_type FB::underflow(){ return this->gptr()<this->egptr()?(unsigned char)*this->gptr():-1; }
template<> FB::int_type FB::pbackfail(int_type c){ if(this->gptr()==this->eback()) return -1; this->gbump(-1); return c==-1?0:c; }
template<> FB::int_type FB::overflow(int_type c){ if(c!=-1) fputc(c,_M_file._M_cfile); return c==-1?0:c; }
template<> streamsize FB::xsputn(const char* s,streamsize n){ for(streamsize i=0;i<n;i++) fputc((unsigned char)s[i],_M_file._M_cfile); return n; }
template<> streamsize FB::xsgetn(char* s,streamsize n){ streamsize i=0; while(i<n&&this->gptr()<this->egptr()){ s[i++]=*this->gptr(); this->gbump(1); } return i; }
template<> basic_streambuf<char>* FB::setbuf(char*,streamsize){ return this; } template<> int FB::sync(){ return 0; } template<> void FB::imbue(const locale&){}
template<> FB::pos_type FB::seekoff(off_type,ios_base::seekdir,ios_base::openmode){ return pos_type(off_type(-1)); } template<> FB::pos_type FB::seekpos(pos_type,ios_base::openmode){ return pos_type(off_type(-1)); }
template<> void FB::_M_allocate_internal_buffer(){} template<> void FB::_M_destroy_internal_buffer() throw(){} template<> void FB::_M_create_pback(){} template<> void FB::_M_destroy_pback() throw(){}
template<> bool FB::_M_terminate_output(){ return true; } template<> bool FB::_M_convert_to_external(char*,streamsize){ return true; }
template class basic_filebuf<char>; template class basic_ifstream<char>; template class basic_ofstream<char>; template class basic_fstream<char>;
}
// std::random_device: one fixed seed
extern "C" { void symx_ovr__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*,const void*){} void symx_ovr__ZNSt13random_device7_M_finiEv(void*){} unsigned symx_ovr__ZNSt13random_device9_M_getvalEv(void*){ return 7; } }
