// std::filesystem::path over its text alone (POSIX), and the few operations on files the tools use; libxml's string comparison.
#include "rt.h"
#include <filesystem>
#include <libxml/xmlstring.h>
namespace std::filesystem {
struct path::_List::_Impl{};
void path::_List::_Impl_deleter::operator()(_Impl*) const noexcept {}
path::_List::_List(){} path::_List::_List(const _List&){} path::_List& path::_List::operator=(const _List&){ return *this; }
void path::_M_split_cmpts(){}
path& path::operator=(const path& p){ _M_pathname=p._M_pathname; return *this; }
path& path::operator/=(const path& p){ if(p.is_absolute()||_M_pathname.empty()){ _M_pathname=p._M_pathname; return *this; } if(_M_pathname.back()!='/') _M_pathname+='/'; _M_pathname+=p._M_pathname; return *this; }
void path::_M_append(basic_string_view<char> s){ *this/=path(std::string(s)); }
void path::_M_concat(basic_string_view<char> s){ _M_pathname+=s; }
bool path::has_root_directory() const noexcept { return !_M_pathname.empty()&&_M_pathname[0]=='/'; }
bool path::has_root_name() const noexcept { return false; }
static size_t fnStart(const string& s){ size_t i=s.size(); while(i&&s[i-1]!='/') i--; return i; }
path path::parent_path() const { size_t i=fnStart(_M_pathname); while(i>1&&_M_pathname[i-1]=='/') i--; return path(_M_pathname.substr(0,i)); }
bool path::has_parent_path() const noexcept { return fnStart(_M_pathname)>0; }
bool path::has_filename() const noexcept { return !_M_pathname.empty()&&_M_pathname.back()!='/'; }
int path::compare(const path& p) const noexcept { return _M_pathname.compare(p._M_pathname); }
int path::compare(basic_string_view<char> s) const noexcept { return basic_string_view<char>(_M_pathname).compare(s); }
path path::lexically_normal() const { sym_unsupported("lexically_normal"); return *this; }
static string cwd(){ string t=rt::tmp("x"); return t.substr(0,t.size()-2); }
path absolute(const path& p){ return p.is_absolute()?p:path(cwd())/p; } path absolute(const path& p,error_code&){ return absolute(p); }
path current_path(){ return path(cwd()); }
bool create_directories(const path&){ return true; } bool create_directory(const path&){ return true; } bool create_directories(const path&,error_code&){ return true; } bool create_directory(const path&,error_code&) noexcept { return true; }
}
extern "C" int xmlStrcmp(const xmlChar* a,const xmlChar* b){ if(a==b) return 0; if(!a) return -1; if(!b) return 1; while(*a&&*a==*b){ a++; b++; } return (int)*a-(int)*b; }
extern "C" int xmlStrEqual(const xmlChar* a,const xmlChar* b){ return xmlStrcmp(a,b)==0; }
