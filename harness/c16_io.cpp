// C16: sparse grid files round-trip.
#include <algorithm>
#include <cstring>
#include "common.hpp"
#include "sparsegrid/DistributedSparseGridIO.hpp"
#include "combicom/CombiCom.hpp"
#ifdef VF_NATIVE
#include <lz4.h>
extern "C" int LZ4_compressBound(int n) { if (n == (1 << 20) * 4) return (int)vf_config("sink", 64); return (unsigned)n > 0x7E000000u ? 0 : n + n / 255 + 16; }
#endif
using namespace combigrid;
using namespace vfh;
static int me, np;
template <class V> static V val(int set, int rank, long k);
template <> double val<double>(int set, int rank, long k) { return vf_double_i(nm("v", set).c_str(), rank * 1000 + k, -64, 64); }
template <> std::complex<double> val<std::complex<double>>(int set, int rank, long k) { return {val<double>(set, rank, 2 * k), val<double>(set, rank, 2 * k + 1)}; }
static void eq(double a, double b, const char* l) { vf_assert_eq_d(a, b, l); }
static void eq(std::complex<double> a, std::complex<double> b, const char* l) { vf_assert_eq_d(a.real(), b.real(), l); vf_assert_eq_d(a.imag(), b.imag(), l); }
template <class V> static std::vector<V> make(int set, long n) { std::vector<V> v(n); for (long k = 0; k < n; ++k) v[k] = val<V>(set, me, k); return v; }
template <class V> static void same(const std::vector<V>& v, int setA, int setB, const char* l) {
  for (size_t k = 0; k < v.size(); ++k) { V e = val<V>(setA, me, (long)k); if (setB >= 0) e += val<V>(setB, me, (long)k); eq(v[k], e, l); }
}
static std::string fresh(const char* base) { return base; }  // native runs have a scratch directory of their own
static void drop(const std::string& f) { MPI_Barrier(MPI_COMM_WORLD); if (me == 0) MPI_File_delete(f.c_str(), MPI_INFO_NULL); MPI_Barrier(MPI_COMM_WORLD); }
template <class F> static bool reports(F f) { bool t = false; try { f(); } catch (const std::exception&) { t = true; } return t; }

// values written and read one after the other by rank
template <class V> static void values(bool compressed) {
  std::vector<int> cnt(np); int total = 0; for (int r = 0; r < np; ++r) { cnt[r] = choicei("n", r, 0, cfg("nhi", 3)); total += cnt[r]; }
  const int op = cfg("op", -1) < 0 ? vf_choice("op", 0, compressed ? 4 : 5) : cfg("op", -1); const int n = cnt[me]; auto a = make<V>(0, n); const std::string f = fresh("values"), g = fresh("more");
  auto write = [&](const std::vector<V>& x, const std::string& name, bool replace) { if (compressed) { mpiio::writeCompressedValuesConsecutive<V>(x.data(), (MPI_Offset)x.size(), name, MPI_COMM_WORLD, replace); } else { vf_assert_eq_i(mpiio::writeValuesConsecutive<V>(x.data(), (MPI_Offset)x.size(), name, MPI_COMM_WORLD, replace), (int)x.size(), "C16: number of values written"); } };
  auto read = [&](V* x, int k) { return compressed ? mpiio::readCompressedValuesConsecutive<V>(x, k, f, MPI_COMM_WORLD) : mpiio::readValuesConsecutive<V>(x, k, f, MPI_COMM_WORLD); };
  int buf = 0; auto reduce = [&](V* x, int k) { return compressed ? mpiio::readReduceCompressedValuesConsecutive<V>(x, k, f, MPI_COMM_WORLD, std::plus<V>{}) : mpiio::readReduceValuesConsecutive<V>(x, k, f, MPI_COMM_WORLD, buf, std::plus<V>{}); };
  if (op == 3) { auto b = make<V>(1, n + (me == vf_choice("longer", 0, np - 1) ? 1 : 0)); write(b, f, true); }  // a file that has to be replaced
  write(a, f, op == 3);
  if (op == 0 || op == 3) { std::vector<V> x(n, V(99.)); vf_assert_eq_i(read(x.data(), n), n, "C16: number of values read"); same(x, 0, -1, "C16: values read back"); }
  if (op == 1) { buf = compressed ? 0 : vf_choice("buffer", 1, cfg("nhi", 3) + 1); auto x = make<V>(1, n); vf_assert_eq_i(reduce(x.data(), n), n, "C16: number of values reduced"); same(x, 1, 0, "C16: values read and added"); }
  if (op == 2 || op == 4) {  // one rank expects another number of values than the file holds
    int k = n; const int who = vf_choice("who", 0, np - 1), d = vf_choice("more", 0, 1) ? 1 : -1; if (cnt[who] + d < 0) vf_stop(); if (me == who) k += d; buf = 2;
    std::vector<V> x(k, V(7.)); bool t = op == 2 ? reports([&] { read(x.data(), k); }) : reports([&] { reduce(x.data(), k); });
    int any = t, sum = 0; MPI_Allreduce(&any, &sum, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); vf_assert(sum == 1, "C16: a file of the wrong size is reported");
  }
  if (op == 5) {  // two files at once
    auto b = make<V>(2, n), x = make<V>(1, n); write(b, g, false); buf = vf_choice("buffer", 1, cfg("nhi", 3) + 1);
    vf_assert_eq_i(mpiio::readMultipleReduceValuesConsecutive<V>(x.data(), n, {f, g}, MPI_COMM_WORLD, buf, [](V p, V q, V r) { return p + 2. * q + 4. * r; }), n, "C16: number of values reduced");
    for (int k = 0; k < n; ++k) eq(x[k], val<V>(0, me, k) + 2. * val<V>(1, me, k) + 4. * val<V>(2, me, k), "C16: values of two files reduced");
    drop(g);
  }
  drop(f); vf_cover("C16 values");
}
void vf_main() {
  MPI_Init(nullptr, nullptr); MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np); int w = cfg("what", 0), t = cfg("type", 0);
  if (w == 0) { if (t) values<std::complex<double>>(false); else values<double>(false); }
  if (w == 1) { if (t) values<std::complex<double>>(true); else values<double>(true); }
  MPI_Finalize();
}
