// String streams used by archives (see ser/boost/vf_archive.hpp): contents kept per stream object.
#include <map>
#include <sstream>
#include <string>
#include "vf.h"
struct Cont { std::string s; size_t pos = 0; };
static std::map<const void*, Cont>& streams() { static std::map<const void*, Cont> m; return m; }
// an archive gets the iostream part of a string stream, whose address differs from that of the whole object
static Cont* find(const void* p) { auto it = streams().upper_bound(p); if (it == streams().begin()) return nullptr; --it; return (const char*)p < (const char*)it->first + sizeof(std::stringstream) ? &it->second : nullptr; }
extern "C" {
void vfser_put(const void* st, const void* d, unsigned long n) { if (Cont* c = find(st)) c->s.append((const char*)d, n); else vf_fail("archive", "unknown stream"); }
void vfser_get(const void* st, void* d, unsigned long n) { Cont* c = find(st); if (!c || c->s.size() - c->pos < n) vf_fail("archive", "read past the end of an archive"); for (unsigned long i = 0; i < n; ++i) ((char*)d)[i] = c->s[c->pos + i]; c->pos += n; }
void vfm__ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev(void* t) { streams()[t] = Cont(); }
void vfm__ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode(void* t, const std::string* s, int) { Cont& c = streams()[t]; c.s = *s; c.pos = 0; }
void vfm__ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev(void* t) { streams().erase(t); }
}
extern "C++" std::string vfserStr(const void* t) asm("vfm__ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv");
std::string vfserStr(const void* t) { Cont* c = find(t); return c ? c->s : std::string(); }
