// C17: socket transfers deliver exactly the sent data for every fragmentation.
#include <sys/socket.h>
#include <netdb.h>
#include <algorithm>
#include <complex>
#include <cstring>
#include <string>
#include <vector>
#include "vf.h"
#include "third_level/NetworkUtils.hpp"
using namespace combigrid;
// ---- the operating system: two one-way streams; pieces are chosen by the solver
struct Stream { std::vector<char> d; size_t pos = 0; bool error = false; };
static Stream in_[4], out_[4]; static int nfd_ = 0, pieces_ = 0, maxPieces_ = 1000, sends_ = 0; static bool on_ = false;
static std::string key(const char* b, int i) { return std::string(b) + char('0' + i / 10 % 10) + char('0' + i % 10); }
static int cfg(const char* k, int d) { return (int)vf_config(k, d); }
extern "C" {
int socket(int, int, int) { return 100 + nfd_++; }
int connect(int, const struct sockaddr*, socklen_t) { return 0; }
int close(int) { return 0; }
struct hostent* gethostbyname(const char*) { static struct hostent h; static char a[4] = {127, 0, 0, 1}; static char* l[2] = {a, nullptr}; h.h_addr_list = l; h.h_length = 4; return &h; }
ssize_t recv(int fd, void* b, size_t n, int) {
  Stream& s = in_[fd - 100]; size_t av = s.d.size() - s.pos; if (!av) { errno = 0; return s.error ? -1 : 0; }
  size_t k = std::min(n, av); if (k > 1) k = ++pieces_ >= maxPieces_ ? k : (size_t)vf_choice(key("piece", pieces_).c_str(), 1, (int)k);
  memcpy(b, s.d.data() + s.pos, k); s.pos += k; return (ssize_t)k;
}
ssize_t send(int fd, const void* b, size_t n, int) {
  Stream& s = out_[fd - 100]; if (s.error) return -1; size_t k = n; if (k > 1 && ++sends_ < cfg("sends", 2)) k = (size_t)vf_choice(key("sent", sends_).c_str(), 1, (int)k);
  s.d.insert(s.d.end(), (const char*)b, (const char*)b + k); return (ssize_t)k;
}
}
static void deliver(int from, int to, bool all = true) { in_[to].d.insert(in_[to].d.end(), out_[from].d.begin(), out_[from].d.end()); out_[from].d.clear(); }
struct Pair { ClientSocket a{"h", 1}, b{"h", 1}; Pair() { vf_assert(a.init() && b.init(), "C17: sockets initialised"); } };
static bool eqBytes(const char* a, const char* b, size_t n) { bool r = true; for (size_t i = 0; i < n; ++i) r = r & (a[i] == b[i]); return r; }
static std::vector<char> bytes(const char* nm, int n) { std::vector<char> v(n); for (int i = 0; i < n; ++i) v[i] = (char)vf_u8(nm, i); return v; }
static void nothingLeft(int fd) { vf_assert(in_[fd].pos == in_[fd].d.size(), "C17: everything was received"); }

static void plain() {  // two messages one after the other
  Pair p; const int n1 = vf_choice("n1", 1, cfg("nhi", 4)), n2 = vf_choice("n2", 1, 2); auto x = bytes("x", n1), y = bytes("y", n2); std::string xs(x.begin(), x.end());
  bool s = vf_choice("str", 0, 1); vf_assert(s ? p.a.sendall(xs) : p.a.sendall(x.data(), n1), "C17: sent"); vf_assert(p.a.sendall(y.data(), n2), "C17: sent"); deliver(0, 1);
  std::vector<char> r(n1 + 1, 'q'); std::string rs;
  if (s) { vf_assert(p.b.recvall(rs, n1), "C17: received"); vf_assert((int)rs.size() == n1 && eqBytes(rs.data(), x.data(), n1), "C17: bytes received as sent"); }
  else { vf_assert(p.b.recvall(r.data(), n1), "C17: received"); vf_assert(eqBytes(r.data(), x.data(), n1) & (r[n1] == 'q'), "C17: bytes received as sent"); }
  char q[3]; vf_assert(p.b.recvall(q, n2), "C17: received"); vf_assert(eqBytes(q, y.data(), n2), "C17: next bytes received as sent"); nothingLeft(1); vf_cover("C17 plain");
}
static void prefixed() {
  Pair p; const int n1 = vf_choice("n1", cfg("lo", 1), cfg("nhi", 4)); auto x = bytes("x", n1), y = bytes("y", 2); std::string xs(x.begin(), x.end());
  bool s = vf_choice("str", 0, 1); vf_assert(s ? p.a.sendallPrefixed(xs) : p.a.sendallPrefixed(x.data(), n1), "C17: sent"); vf_assert(p.a.sendallPrefixed(y.data(), 2), "C17: sent"); deliver(0, 1);
  std::string rs; std::unique_ptr<char[]> rb; size_t len = 0;
  if (vf_choice("rstr", 0, 1)) { vf_assert(p.b.recvallPrefixed(rs), "C17: received"); vf_assert((int)rs.size() == n1 && eqBytes(rs.data(), x.data(), n1), "C17: message received as sent"); }
  else { vf_assert(p.b.recvallPrefixed(rb, len), "C17: received"); vf_assert((int)len == n1 && eqBytes(rb.get(), x.data(), n1), "C17: message received as sent"); }
  vf_assert(p.b.recvallPrefixed(rs), "C17: received"); vf_assert(rs.size() == 2 && eqBytes(rs.data(), y.data(), 2), "C17: next message received as sent"); nothingLeft(1); vf_cover("C17 prefixed");
}
static void lengths() {  // announced lengths of any size
  Pair p; static const char* s[] = {"1#", "10#", "2147483647#", "2147483648#", "4294967297#", "1099511627776#"}; static const size_t v[] = {1, 10, 2147483647ul, 2147483648ul, 4294967297ul, 1099511627776ul}; int i = vf_choice("len", 0, 5);
  in_[1].d.assign(s[i], s[i] + strlen(s[i])); size_t len = 0; vf_assert(p.b.recvLength(len), "C17: received"); vf_assert_eq_i((int64_t)len, (int64_t)v[i], "C17: announced length"); vf_cover("C17 lengths");
}
template <class T> static T element(const char* nm, int i) { T t; char* c = (char*)&t; for (size_t k = 0; k < sizeof(T); ++k) c[k] = (char)vf_u8(nm, i * 16 + (int)k); return t; }
template <class T> static bool same(const T& a, const T& b) { return eqBytes((const char*)&a, (const char*)&b, sizeof(T)); }
template <class T> static void binary() {
  Pair p; const int n = vf_choice("n", 1, cfg("nhi", 2)); const bool red = cfg("red", -1) < 0 ? vf_choice("reduce", 0, 1) : cfg("red", 0), other = cfg("other", -1) < 0 ? vf_choice("other", 0, 1) : cfg("other", 0); maxPieces_ = cfg("pieces", 1000);
  std::vector<T> x(n), y(n); for (int i = 0; i < n; ++i) { x[i] = element<T>("x", i); y[i] = element<T>("y", i); }
  vf_assert(p.a.sendallBinary(x.data(), n), "C17: sent"); char z[2] = {'z', '!'}; vf_assert(p.a.sendall(z, 2), "C17: sent"); deliver(0, 1); auto& d = in_[1].d;
  vf_assert_eq_i((int64_t)d.size(), (int64_t)(1 + n * sizeof(T) + 2), "C17: bytes on the wire");
  if (other) { d[0] = (char)!d[0]; const size_t u = cfg("unit", sizeof(T)); for (size_t i = 0; i < n * sizeof(T) / u; ++i) std::reverse(d.begin() + 1 + i * u, d.begin() + 1 + (i + 1) * u); }  // as sent by a system of the other byte order
  const int chunk = cfg("chunk", 0) ? cfg("chunk", 0) : vf_choice("chunk", 1, (int)(n * sizeof(T)) + 1); std::vector<T> r = y;
  bool ok = red ? p.b.recvallBinaryAndReduceInPlace<T>(r.data(), n, [](const T& a, const T& b) -> T { return a + b; }, chunk) : p.b.recvallBinaryAndCorrectInPlace<T>(r.data(), n, chunk);
  vf_assert(ok, "C17: received");
  for (int i = 0; i < n; ++i) { T e = red ? T(y[i] + x[i]) : x[i]; vf_assert(same(r[i], e), red ? "C17: numbers added as sent" : "C17: numbers received as sent"); }
  char q[2] = {0, 0}; vf_assert(p.b.recvall(q, 2), "C17: received"); vf_assert(q[0] == 'z' && q[1] == '!', "C17: bytes after the numbers"); nothingLeft(1); vf_cover("C17 binary");
}
static void forwarding() {
  Pair p; ClientSocket c("h", 1); c.init(); const int n = vf_choice("n", 0, cfg("nhi", 4)), chunk = vf_choice("chunk", 1, n + 1); auto x = bytes("x", n + 1);
  in_[1].d = x; vf_assert(NetworkUtils::forward(p.b, c, chunk, n), "C17: forwarded"); auto& o = out_[2].d;
  vf_assert((int)o.size() == n && eqBytes(o.data(), x.data(), n), "C17: bytes forwarded as received"); vf_assert((int)in_[1].pos == n, "C17: bytes after the forwarded ones stay"); vf_cover("C17 forward");
}
static void early() {  // the connection ends (or fails) after k bytes
  Pair p; const int op = vf_choice("op", 0, 6), n = 2; std::vector<uint16_t> x{0x1234, 0x4567}; std::vector<char> raw((char*)x.data(), (char*)x.data() + 4); bool ok = true; std::string s; std::unique_ptr<char[]> b; size_t len; uint16_t r[2] = {0, 0}; char c[8];
  if (op <= 1) p.a.sendall(raw.data(), 4); else if (op <= 3) p.a.sendallPrefixed(raw.data(), 4); else if (op <= 5) p.a.sendallBinary(x.data(), n); else p.a.sendall(raw.data(), 4);
  deliver(0, 1); auto& d = in_[1].d; const int k = vf_choice("end", 0, (int)d.size() - 1); d.resize(k); in_[1].error = vf_choice("error", 0, 1);
  ClientSocket t("h", 1); t.init();
  if (op == 0) ok = p.b.recvall(c, 4); if (op == 1) ok = p.b.recvall(s, 4); if (op == 2) ok = p.b.recvallPrefixed(s); if (op == 3) ok = p.b.recvallPrefixed(b, len);
  if (op == 4) ok = p.b.recvallBinaryAndCorrectInPlace<uint16_t>(r, n, 3); if (op == 5) ok = p.b.recvallBinaryAndReduceInPlace<uint16_t>(r, n, [](const uint16_t& a, const uint16_t& b) -> uint16_t { return a + b; }, 3);
  if (op == 6) ok = NetworkUtils::forward(p.b, t, 3, 4);
  vf_assert(!ok, "C17: a connection that ends early is reported"); vf_cover("C17 early");
}
static void sendFails() { Pair p; out_[0].error = true; char c[2] = {1, 2}; double d = 1; vf_assert(!p.a.sendall(c, 2) & !p.a.sendallPrefixed(c, 2) & !p.a.sendallBinary(&d, 1) & !p.a.sendall(std::string("x")), "C17: a failing send is reported"); vf_cover("C17 send"); }
void vf_main() {
  int w = cfg("what", 0), t = cfg("type", 0);
  if (w == 0) plain(); if (w == 1) prefixed(); if (w == 2) lengths();
  if (w == 3) { if (t == 0) binary<uint16_t>(); if (t == 1) binary<uint32_t>(); if (t == 2) binary<uint64_t>(); if (t == 3) binary<double>(); if (t == 4) binary<std::complex<double>>(); }
  if (w == 4) forwarding(); if (w == 5) early(); if (w == 6) sendFails();
}
