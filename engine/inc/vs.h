// Harness interface. Symbolic meaning: vsym's builtins (engine/builtins.hpp) and the models
// (engine/models.cpp). Native meaning, for replaying a counterexample: engine/native.cpp.
#pragma once
#include <stddef.h>
extern "C" {
double vs_real(const char* name, double lo, double hi);        // any real in [lo,hi]
int    vs_int(const char* name, int lo, int hi);               // any int in [lo,hi]
int    vs_char(const char* name, const char* alphabet);        // any character of the alphabet
int    vs_choice(const char* name, int n);                     // forks: 0..n-1
int    vs_param(const char* name, int dflt);                   // shape parameter of this run
void   vs_assume(int c);
void   vs_assert(int c, const char* msg);
void   vs_assert_eq(double a, double b, const char* msg);
void   vs_assert_same(double a, double b, const char* msg); // natively: without any tolerance
void   vs_assert_le(double a, double b, const char* msg);
void   vs_reach(const char* tag);                              // witness against vacuity
int    vs_is_inf(double v);
int    vs_is_nan(double v);
int    vs_concrete(int v);
void   vs_stop();
void   vs_fail(const char* kind, const char* msg);
int    vs_native();
int    vs_defined(const void* p, size_t n);
void   vs_debug(const char* m);
void   vs_debug_d(const char* m, double v);
void   vs_debug_i(const char* m, long v);
void   vs_leak_begin();
void   vs_leak_check(const char* msg);
void*  vs_model_alloc(size_t n);
void   vs_model_free(void* p);
int    vs_fmt_real(double v, int prec, int flags, char* buf);
double vs_token_value(int id, int digits);
int    vs_num_token(double v, char* buf);
// files: the virtual file system (natively: a scratch directory)
const char* vs_path(const char* name);
void   vs_file_put(const char* name, const char* data, long n);
long   vs_file_len(const char* name);                          // -1: does not exist
int    vs_file_get(const char* name, long i);
void   vs_file_set(const char* name, long i, int c);
void   vs_file_resize(const char* name, long n);
void   vs_fault(int what, long after);  // 0 off, 1 reads fail after `after` bytes, 2 writes fail, 3 nth open fails
int    vs_fault_hits();                 // how many times a fault was delivered
void   vs_clock_mode(int m);            // 0: constant time; 1: every reading advances by any of {0, 10 s}; 2: always 10 s
void   vs_script(const char* line);     // next line for readline()
long   vs_out_len();                    // bytes written to std::cout so far
int    vs_out_get(long i);
void   vs_stdout_fail();                // std::cout's sink fails from here on
#ifdef WITH_CLI
int    vs_onex_main();                  // runs the CLI's main
#endif
}
