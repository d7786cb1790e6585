// C22: property keys and the property holder
//@ flags -D__GXX_MERGED_TYPEINFO_NAMES=1
#include "vf.h"
#define private public
#define protected public
#include <typeinfo>
#include <typeindex>
#undef private
#undef protected
#include <cassert>
#include <map>
#include <memory>
#include <string>
#include <sstream>
#include <vector>
#include <algorithm>
#include <iostream>
#include <unordered_map>
#include <typeinfo>
#include <typeindex>
#include <boost/functional/hash.hpp>
#include <boost/core/demangle.hpp>
#define private public
#define protected public
#include "SEFramework/Property/Property.h"
#include "SEFramework/Property/PropertyId.h"
using namespace SourceXtractor;
// Any property type: what the language says of types is that type_info objects are equal or not, are ordered, and have
// a hash that agrees for equal types. A type is a position in `names`; several type_info objects may stand for one type.
static char names[1001];
struct Type : public std::type_info { explicit Type(const char* n) : std::type_info(n) {} };
static PropertyId key(Type& t, const char* in) { return PropertyId(std::type_index(t), (unsigned)vf_long(in, 0, 4294967295L)); }
struct Keys {
  int ta, tb, tc; Type &A, &B, &C; PropertyId a, b, c;
  Keys() : ta(vf_int("type_a", 0, 1000)), tb(vf_int("type_b", 0, 1000)), tc(vf_int("type_c", 0, 1000)), A(*new Type(names + ta)), B(*new Type(names + tb)), C(*new Type(names + tc)), a(key(A, "a")), b(key(B, "b")), c(key(C, "c")) {}
};
VF_HARNESS(equality) {
  Keys k;
  bool same = k.ta == k.tb && k.a.m_index == k.b.m_index;
  vf_assert((k.a == k.b) == same, "equal exactly when type and index agree");
  vf_assert(k.a.getIndex() == k.a.m_index && k.a.getTypeId() == std::type_index(k.A), "type and index are reported as given");
}
VF_HARNESS(hashes) {
  int t = vf_int("type", 0, 1000); unsigned i = (unsigned)vf_long("i", 0, 4294967295L); std::hash<PropertyId> h;
  Type &A = *new Type(names + t), &B = *new Type(names + t);   // two type_info objects of one type
  vf_assert(h(PropertyId(std::type_index(A), i)) == h(PropertyId(std::type_index(B), i)), "equal keys have equal hashes");
}
VF_HARNESS(order) {
  Keys k;
  bool ab = k.a < k.b, ba = k.b < k.a, bc = k.b < k.c, ac = k.a < k.c, eq = k.ta == k.tb && k.a.m_index == k.b.m_index;
  vf_assert(!(k.a < k.a), "irreflexive");
  vf_assert(!(ab && ba), "asymmetric");
  vf_assert((ab || ba) == !eq, "total and consistent with equality");
  vf_assert(!(ab && bc) || ac, "transitive");
}
struct P0 : public Property {}; struct P1 : public Property {};
VF_HARNESS(factory) {
  unsigned i = (unsigned)vf_long("i", 0, 4294967295L);
  PropertyId a = PropertyId::create<P0>(i), b = PropertyId::create<P1>(i), d = PropertyId::create<P0>();
  vf_assert(a.getIndex() == i && a.getTypeId() == std::type_index(typeid(P0)), "the key of the requested type and index");
  vf_assert(!(a == b), "another type is another key");
  vf_assert(d.getIndex() == 0 && (d == a) == (i == 0), "the index is 0 when none is given");
}
// --- the holder, in an arbitrary state
struct Prop : public Property { int what; explicit Prop(int w) : what(w) {} };
static long tid(const PropertyId& k) { return k.m_type_id._M_target->__name - names; }
static bool in_there(const PropertyId& k) { return vf_bfun2("set", tid(k), k.m_index); }
static int what_there(const PropertyId& k) { return vf_ifun2("what", tid(k), k.m_index, 0, 1000000); }
#ifndef VF_NATIVE
std::string PropertyId::getString() const { return std::string(); }   // the text of the error message: not part of the property
// Contract of std::unordered_map (assumed, dependency): a finite map. Its content before the calls below is arbitrary:
// key k is in it iff in_there(k), with a property what_there(k). Keys are told apart by the real operator==.
namespace std {
template <> class unordered_map<PropertyId, std::unique_ptr<Property>> {
public:
  typedef std::pair<const PropertyId, std::unique_ptr<Property>> value_type;
  struct Slot { value_type* v = nullptr; bool in = false; };
  mutable Slot s[8]; mutable int n = 0; bool arbitrary = false;
  struct iterator { value_type* p; value_type* operator->() const { return p; } value_type& operator*() const { return *p; }
    bool operator==(const iterator& o) const { return p == o.p; } bool operator!=(const iterator& o) const { return p != o.p; } };
  typedef iterator const_iterator;
  Slot& slot(const PropertyId& k) const {
    for (int i = 0; i < n; i++) if (s[i].v->first == k) return s[i];
    Slot& t = s[n++];
    t.v = new value_type(k, nullptr); t.in = false;
    if (arbitrary) if (in_there(k)) { t.in = true; t.v->second.reset(new Prop(what_there(k))); }
    return t;
  }
  iterator find(const PropertyId& k) const { Slot& t = slot(k); return iterator{t.in ? t.v : nullptr}; }
  iterator end() const { return iterator{nullptr}; }
  iterator cend() const { return iterator{nullptr}; }
  size_t count(const PropertyId& k) const { return slot(k).in ? 1 : 0; }
  std::unique_ptr<Property>& operator[](const PropertyId& k) { Slot& t = slot(k); t.in = true; return t.v->second; }
  std::pair<iterator, bool> emplace(const PropertyId& k, std::unique_ptr<Property>&& p) { Slot& t = slot(k); bool f = !t.in; if (f) { t.in = true; t.v->second = std::move(p); } return {iterator{t.v}, f}; }
  std::pair<iterator, bool> try_emplace(const PropertyId& k, std::unique_ptr<Property>&& p) { return emplace(k, std::move(p)); }
  std::pair<iterator, bool> insert(value_type&& v) { return emplace(v.first, std::move(v.second)); }
  std::pair<iterator, bool> insert_or_assign(const PropertyId& k, std::unique_ptr<Property>&& p) { Slot& t = slot(k); bool f = !t.in; t.in = true; t.v->second = std::move(p); return {iterator{t.v}, f}; }
  size_t erase(const PropertyId& k) { Slot& t = slot(k); bool f = t.in; t.in = false; t.v->second.reset(); return f; }
  void erase(iterator i) { erase(i.p->first); }
  void clear() { arbitrary = false; for (int i = 0; i < n; i++) { s[i].in = false; s[i].v->second.reset(); } }
};
}
#endif
#include "SEFramework/src/lib/Property/PropertyHolder.cpp"
#ifdef VF_NATIVE
#include "SEFramework/src/lib/Property/PropertyId.cpp"
#endif
static void arbitrary_state(PropertyHolder& h, std::initializer_list<const PropertyId*> ks) {
#ifndef VF_NATIVE
  h.m_properties.arbitrary = true;
#else
  for (auto k : ks) if (in_there(*k)) h.setProperty(std::unique_ptr<Property>(new Prop(what_there(*k))), *k);
#endif
}
static bool missing(const PropertyHolder& h, const PropertyId& k) {
  try { h.getProperty(k); } catch (PropertyNotFoundException&) { return true; }
  return false;
}
static int what(const PropertyHolder& h, const PropertyId& k) { return static_cast<const Prop&>(h.getProperty(k)).what; }
VF_HARNESS(holder_query) {
  Keys k; PropertyHolder h; arbitrary_state(h, {&k.a, &k.b, &k.c});
  bool in = in_there(k.a);
  vf_assert(h.isPropertySet(k.a) == in, "set exactly when it is there");
  if (in) vf_assert(what(h, k.a) == what_there(k.a), "the property held under the key");
  else vf_assert(missing(h, k.a), "an unset key is reported as missing");
  vf_assert(h.isPropertySet(k.a) == in && h.isPropertySet(k.b) == in_there(k.b), "a query changes nothing");
  if (in_there(k.b)) vf_assert(what(h, k.b) == what_there(k.b), "a query changes nothing");
}
VF_HARNESS(holder_set) {
  Keys k; PropertyHolder h; arbitrary_state(h, {&k.a, &k.b, &k.c});
  int v = vf_int("v", 0, 1000000);
  h.setProperty(std::unique_ptr<Property>(new Prop(v)), k.a);
  bool same = k.ta == k.tb && k.a.m_index == k.b.m_index;
  vf_assert(h.isPropertySet(k.a) && what(h, k.a) == v, "the property last set is returned");
  if (same) vf_assert(h.isPropertySet(k.b) && what(h, k.b) == v, "an equal key finds the same property");
  else if (in_there(k.b)) vf_assert(h.isPropertySet(k.b) && what(h, k.b) == what_there(k.b), "what other keys hold is unchanged");
  else vf_assert(!h.isPropertySet(k.b) && missing(h, k.b), "other keys stay unset");
  vf_cover(same, "same key"); vf_cover(!same && in_there(k.b), "other key set");
}
VF_HARNESS(holder_clear) {
  Keys k; PropertyHolder h; arbitrary_state(h, {&k.a, &k.b, &k.c});
  h.clear();
  vf_assert(!h.isPropertySet(k.a) && missing(h, k.a), "nothing is held after clearing");
  h.setProperty(std::unique_ptr<Property>(new Prop(3)), k.b);
  vf_assert(h.isPropertySet(k.b) && what(h, k.b) == 3, "a property set later is held");
}
VF_HARNESS(holder_new) { Keys k; PropertyHolder h; vf_assert(!h.isPropertySet(k.a) && missing(h, k.a), "a new holder holds nothing"); }
