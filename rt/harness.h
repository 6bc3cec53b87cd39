// Interface between harnesses and the symbolic engine (or the native replay runtime).
#pragma once
#include <cstdint>
#include <cstddef>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t sym_var(const char* name,const uint64_t* dom,uint64_t n,uint32_t bits);
void sym_assume(int c); void sym_assert(int c,const char* label); void sym_fail(const char* label); void sym_note(const char* label); void sym_unsupported(const char* why);
uint64_t sym_concretize(uint64_t v); int sym_param(const char* name,int def); const char* sym_params(const char* name);
int sym_try(void(*fn)(void*),void* arg);           // 0 returned, 1|code<<8 exit(), 2 terminate, 3 abort
int sym_mode(void); int sym_issym(uint64_t v); void sym_stop(void);
void sym_dump(uint64_t v,const char* n); void sym_dumpmem(const void* p,uint64_t n,const char* name);
int sym_mem_eq(const void* a,const void* b,uint64_t n);
#ifdef __cplusplus
}
#endif
