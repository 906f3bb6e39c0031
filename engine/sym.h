// Harness interface. In the symbolic executor these are intrinsics; natively (replay_rt.cpp) they read a recorded input.
#pragma once
#include <cstddef>
extern "C" {
void  sym_bytes(void* p, size_t n);                  // n fresh symbolic input bytes
void  sym_assume(int c);                             // prune paths on which c is false
void  sym_assert(int c, const char* msg);            // must hold for every input reaching it
int   sym_choose(int n);                             // one of 0..n-1, every value explored
void  sym_observe(unsigned long long v);             // recorded for translation validation
void  sym_reach(const char* label);                  // reachability witness
unsigned long sym_concretize(unsigned long v);       // fork over every feasible value
void  sym_close(double a, long long num, int k, double tol, const char* msg); // |a-num*10^k| <= tol*|num*10^k|
int   sym_is_engine();
unsigned long sym_live();                            // operator new / new[] blocks not yet released (compare differences only)
}
template <typename T> inline T sym() { T t; sym_bytes(&t, sizeof(T)); return t; }
inline unsigned char sym_u8() { return sym<unsigned char>(); }
// byte drawn from a small alphabet given as a C string literal of n chars (still symbolic: constrained, not enumerated)
inline char sym_char_of(const char* set, int n) { char c; sym_bytes(&c,1); int ok=0; for(int i=0;i<n;++i) ok|=(c==set[i]); sym_assume(ok); return c; }
#define CHECK(c) sym_assert((c) ? 1 : 0, #c)
#define CHECKM(c,m) sym_assert((c) ? 1 : 0, m)
#define JOB(name) extern "C" void job_##name(int arg)
