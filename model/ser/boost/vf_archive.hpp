// Model of boost archives: values as raw bytes, polymorphic pointers through a registry filled by BOOST_CLASS_EXPORT.
// The text representation of boost itself is trusted; native replays use the real library.
#pragma once
#include <complex>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <istream>
#include <map>
#include <ostream>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <boost/core/nvp.hpp>
#include <vector>
extern "C" void vfser_put(const void* stream, const void* d, unsigned long n);
extern "C" void vfser_get(const void* stream, void* d, unsigned long n);
namespace boost { namespace serialization {
class access {
 public:
  template <class A, class T> static void serialize(A& ar, T& t) { t.serialize(ar, 0u); }
  template <class T> static T* create() { return new T(); }
};
template <class B, class D> B& base_object(D& d) { return d; }
} namespace archive {
class text_oarchive; class text_iarchive;
struct vfType { const std::type_info* ti; void (*save)(text_oarchive&, void*); void* (*load)(text_iarchive&); vfType* next; int id; };
inline vfType*& vfTypes() { static vfType* h = nullptr; return h; }
inline bool vfSame(const std::type_info* a, const std::type_info* b) { return a->name() == b->name(); }
class text_oarchive {
 public:
  text_oarchive(std::ostream& s, unsigned = 0) : s_(&s) {}
  template <class T> text_oarchive& operator<<(const T& t) { put(const_cast<std::remove_const_t<T>&>(t)); return *this; }
  template <class T> text_oarchive& operator&(const T& t) { return *this << t; }
  void raw(const void* d, unsigned long n) { vfser_put(s_, d, n); }
 private:
  const void* s_;
  template <class T> void put(std::complex<T>& c) { raw(&c, sizeof c); }
  template <class T> void put(serialization::nvp<T>& v) { put(v.value()); }
  void put(std::string& v) { unsigned long n = v.size(); raw(&n, sizeof n); if (n) raw(v.data(), n); }
  void put(std::vector<bool>& v) { unsigned long n = v.size(); raw(&n, sizeof n); for (unsigned long i = 0; i < n; ++i) { char b = v[i]; raw(&b, 1); } }
  template <class T> void put(std::vector<T>& v) { unsigned long n = v.size(); raw(&n, sizeof n); for (auto& x : v) put(x); }
  template <class K, class V> void put(std::map<K, V>& m) { unsigned long n = m.size(); raw(&n, sizeof n); for (auto& x : m) { put(const_cast<K&>(x.first)); put(x.second); } }
  template <class T> void put(T*& p);
  template <class T> std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>> put(T& x) { raw(&x, sizeof x); }
  template <class T> std::enable_if_t<std::is_class_v<T>> put(T& x) { boost::serialization::access::serialize(*this, x); }
  friend class boost::serialization::access;
};
class text_iarchive {
 public:
  text_iarchive(std::istream& s, unsigned = 0) : s_(&s) {}
  template <class T> text_iarchive& operator>>(T& t) { get(t); return *this; }
  template <class T> text_iarchive& operator&(T& t) { get(t); return *this; }
  void raw(void* d, unsigned long n) { vfser_get(s_, d, n); }
 private:
  const void* s_;
  template <class T> void get(std::complex<T>& c) { raw(&c, sizeof c); }
  template <class T> void get(const serialization::nvp<T>& v) { get(v.value()); }
  void get(std::string& v) { unsigned long n; raw(&n, sizeof n); v.resize(n); if (n) raw(&v[0], n); }
  void get(std::vector<bool>& v) { unsigned long n; raw(&n, sizeof n); v.resize(n); for (unsigned long i = 0; i < n; ++i) { char b; raw(&b, 1); v[i] = b; } }
  template <class T> void get(std::vector<T>& v) { unsigned long n; raw(&n, sizeof n); v.resize(n); for (auto& x : v) get(x); }
  template <class K, class V> void get(std::map<K, V>& m) { unsigned long n; raw(&n, sizeof n); m.clear(); for (unsigned long i = 0; i < n; ++i) { K k{}; V v{}; get(k); get(v); m[k] = v; } }
  template <class T> void get(T*& p);
  template <class T> std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>> get(T& x) { raw(&x, sizeof x); }
  template <class T> std::enable_if_t<std::is_class_v<T>> get(T& x) { boost::serialization::access::serialize(*this, x); }
};
[[noreturn]] inline void vfUnregistered() { throw 0; }  // boost: unregistered_class
template <class T> void text_oarchive::put(T*& p) {
  int id = 0; if (!p) { raw(&id, sizeof id); return; }
  if constexpr (std::is_polymorphic_v<T>) {
    for (vfType* t = vfTypes(); t; t = t->next) if (vfSame(t->ti, &typeid(*p))) { id = t->id; raw(&id, sizeof id); t->save(*this, (void*)p); return; }
    vfUnregistered();
  } else { id = -1; raw(&id, sizeof id); put(*const_cast<std::remove_const_t<T>*>(p)); }
}
template <class T> void text_iarchive::get(T*& p) {
  int id; raw(&id, sizeof id); if (!id) { p = nullptr; return; }
  if constexpr (std::is_polymorphic_v<T>) { for (vfType* t = vfTypes(); t; t = t->next) if (t->id == id) { p = (T*)t->load(*this); return; } vfUnregistered(); }
  else { p = boost::serialization::access::create<T>(); get(*p); }
}
template <class T> struct vfExport {
  static void save(text_oarchive& a, void* p) { a << *(T*)p; }
  static void* load(text_iarchive& a) { if constexpr (!std::is_abstract_v<T>) { T* p = boost::serialization::access::create<T>(); a >> *p; return p; } else return nullptr; }
  vfType t{&typeid(T), save, load, nullptr, 0};
  vfExport() { for (vfType* o = vfTypes(); o; o = o->next) if (vfSame(o->ti, t.ti)) return; t.next = vfTypes(); t.id = t.next ? t.next->id + 1 : 1; vfTypes() = &t; }
};
using binary_iarchive = text_iarchive; using binary_oarchive = text_oarchive;
} }
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define BOOST_CLASS_EXPORT(T) static boost::archive::vfExport<T> VF_CAT(vfExport_, __COUNTER__);
#define BOOST_CLASS_EXPORT_GUID(T, n) BOOST_CLASS_EXPORT(T)
#define BOOST_CLASS_EXPORT_KEY(T)
#define BOOST_CLASS_EXPORT_IMPLEMENT(T) BOOST_CLASS_EXPORT(T)
