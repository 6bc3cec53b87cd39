// Shared pieces of stream generators: symbolic letters, escapes, blanks.
#pragma once
#include "rt.h"
static int gctr; static const char32_t* glesc=U"^$/<[]\\";
static const char32_t ESC[]=U"^$/<>[]{}\\@+#~";
// one letter; '\\' in the domain stands for an escaped reserved character
static inline void gl(Syms& s,const char* p,const char32_t* dom){ uint32_t c=symch(p,gctr++,dom); bool has=false; for(const char32_t* d=dom;*d;d++) if(*d=='\\') has=true; if(has&&sym_concretize(c=='\\')){ s.push_back('\\'); s.push_back(symch("x",gctr++,glesc)); } else s.push_back(c); }
static inline void gtag(Syms& s,const char32_t* dom){ s.push_back('<'); s.push_back(symch("t",gctr++,dom)); s.push_back('>'); }
static inline void addlit(Syms& s,const char* t){ while(*t) s.push_back((unsigned char)*t++); }
static inline Syms sub(const Syms& s,size_t a,size_t n){ Syms r; for(size_t i=a;i<a+n&&i<s.size();i++) r.push_back(s[i]); return r; }
