// Harness API. In symx these are engine builtins; natively (replay) vf_native.cpp implements them.
#pragma once
#include <cstdint>
extern "C" {
int64_t vf_config(const char* key, int64_t dflt);      // concrete parameter of the job
int vf_rank(); int vf_nranks();
int vf_int(const char* name, int lo, int hi);           // symbolic 32-bit integer in [lo,hi]
int64_t vf_long(const char* name, int64_t lo, int64_t hi);
uint64_t vf_u64(const char* name);                      // arbitrary 64-bit pattern
uint8_t vf_u8(const char* name, int idx);               // arbitrary byte
int vf_choice(const char* name, int lo, int hi);        // symbolic, then case-split by the solver
double vf_double(const char* name, double lo, double hi);            // symbolic (integral for the exactness certificate)
double vf_double_i(const char* name, int64_t idx, double lo, double hi);
double vf_real(const char* name, double lo, double hi); // symbolic real
double vf_bits_double(const char* name);                // double with arbitrary bits, only moved around
void vf_assume(bool c);
void vf_assert(bool c, const char* label);
void vf_assert_eq_i(int64_t a, int64_t b, const char* label);
void vf_assert_eq_d(double a, double b, const char* label);
void vf_cover(const char* label);                       // reachability witness
void vf_note(const char* label, int64_t v);
void vf_print(const char* label, int64_t v); void vf_printd(const char* label, double v);
// scheduling primitives (only used by the MPI model)
void vf_block(const char* what); void vf_progress();
void vf_fail(const char* kind, const char* msg);
void vf_unsupported(const char* msg);
void vf_stop();
bool vf_is_concrete(int64_t v); bool vf_is_concrete_d(double v);
int64_t vf_concretize(int64_t v);
void vf_main();
}
