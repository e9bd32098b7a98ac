// Native runtime of the harness API: replays one concrete assignment against the real code, real MPI.
#include <mpi.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <unistd.h>
#include <algorithm>
#include <string>
#include "vf.h"
static std::map<std::string, std::string> asg, conf;
static void load(const char* env, std::map<std::string, std::string>& m) {
  const char* f = getenv(env); if (!f) return; std::ifstream in(f); std::string l;
  while (std::getline(in, l)) { size_t t = l.find('\t'); if (t != std::string::npos) m[l.substr(0, t)] = l.substr(t + 1); }
}
static int rank() { int i = 0, r = 0; MPI_Initialized(&i); if (i) { int f = 0; MPI_Finalized(&f); if (!f) MPI_Comm_rank(MPI_COMM_WORLD, &r); } return r; }
[[noreturn]] static void bail(int code) { fflush(stdout); fflush(stderr); int i = 0; MPI_Initialized(&i); int f = 0; if (i) MPI_Finalized(&f); if (i && !f) MPI_Abort(MPI_COMM_WORLD, code); _exit(code); }
static std::string idx(const char* n, int64_t i) { return std::string(n) + "[" + std::to_string(i) + "]"; }
template <class T> static T clampv(T x, T lo, T hi) { return x < lo ? lo : x > hi ? hi : x; }
static int64_t geti(const std::string& n, int64_t lo, int64_t hi) { auto it = asg.find(n); return it == asg.end() ? clampv<int64_t>(0, lo, hi) : std::strtoll(it->second.c_str(), 0, 10); }
static uint64_t getu(const std::string& n) { auto it = asg.find(n); return it == asg.end() ? 0 : std::strtoull(it->second.c_str(), 0, 10); }
static double getd(const std::string& n, double lo, double hi) { auto it = asg.find(n); return it == asg.end() ? clampv(0., lo, hi) : std::strtod(it->second.c_str(), 0); }
[[noreturn]] static void failed(const char* what, const char* label) { fprintf(stderr, "VF-ASSERT-FAILED [rank %d] %s: %s\n", rank(), what, label); bail(42); }
extern "C" {
int64_t vf_config(const char* k, int64_t d) { auto it = conf.find(k); return it == conf.end() ? d : std::strtoll(it->second.c_str(), 0, 0); }
int vf_rank() { return rank(); }
int vf_nranks() { int n = 1; int i = 0; MPI_Initialized(&i); if (i) MPI_Comm_size(MPI_COMM_WORLD, &n); return n; }
int vf_int(const char* n, int lo, int hi) { return (int)geti(n, lo, hi); }
int64_t vf_long(const char* n, int64_t lo, int64_t hi) { return geti(n, lo, hi); }
uint64_t vf_u64(const char* n) { return getu(n); }
uint8_t vf_u8(const char* n, int i) { return (uint8_t)getu(idx(n, i)); }
int vf_choice(const char* n, int lo, int hi) { return (int)geti(n, lo, hi); }
double vf_double(const char* n, double lo, double hi) { return getd(n, lo, hi); }
double vf_double_i(const char* n, int64_t i, double lo, double hi) { return getd(idx(n, i), lo, hi); }
double vf_real(const char* n, double lo, double hi) { return getd(n, lo, hi); }
double vf_bits_double(const char* n) { uint64_t u = getu(n); double d; memcpy(&d, &u, 8); return d; }
void vf_assume(bool c) { if (!c) { fprintf(stderr, "VF-ASSUME-FALSE\n"); bail(77); } }
void vf_assert(bool c, const char* l) { if (!c) failed("assertion is false", l); }
void vf_assert_eq_i(int64_t a, int64_t b, const char* l) { if (a != b) { fprintf(stderr, "values: %lld vs %lld\n", (long long)a, (long long)b); failed("integers differ", l); } }
void vf_assert_eq_d(double a, double b, const char* l) { if (a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-7 * std::max(1.0, std::max(std::fabs(a), std::fabs(b)))) return; fprintf(stderr, "values: %.17g vs %.17g\n", a, b); failed("doubles differ", l); }
void vf_cover(const char*) {}
void vf_note(const char* l, int64_t v) { if (getenv("VF_VERBOSE")) fprintf(stderr, "[rank %d] %s=%lld\n", rank(), l, (long long)v); }
void vf_print(const char* l, int64_t v) { fprintf(stderr, "[rank %d] %s=%lld\n", rank(), l, (long long)v); }
void vf_printd(const char* l, double v) { fprintf(stderr, "[rank %d] %s=%.17g\n", rank(), l, v); }
void vf_block(const char*) {} void vf_progress() {} void vf_yield() {}
void vf_fail(const char* k, const char* m) { failed(k, m); }
void vf_unsupported(const char*) {}
void vf_stop() { fprintf(stderr, "VF-STOP\n"); bail(77); }
bool vf_is_concrete(int64_t) { return true; } bool vf_is_concrete_d(double) { return true; }
int64_t vf_concretize(int64_t v) { return v; }
}
// the speed of each rank chosen by the solver ("lagNN"), as real delays
static void lag() { static int ms = -1; if (ms < 0) { char n[8]; snprintf(n, sizeof n, "lag%02d", rank()); ms = conf.count("lag") ? 5 * (int)geti(n, 0, 0) : 0; } if (ms) usleep(1000 * ms); }
extern "C" int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { lag(); return PMPI_Send(b, n, t, d, tag, c); }
extern "C" int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* q) { const int e = PMPI_Irecv(b, n, t, s, tag, c, q); lag(); if (conf.count("early")) { int f; MPI_Iprobe(MPI_ANY_SOURCE, 32767, MPI_COMM_WORLD, &f, MPI_STATUS_IGNORE); } return e; }
int main() { load("VF_ASSIGN", asg); load("VF_CONFIG", conf); vf_main(); printf("VF-DONE\n"); fflush(stdout); return 0; }
extern "C" int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* q) { const int e = PMPI_Recv(b, n, t, s, tag, c, q); lag(); return e; }
