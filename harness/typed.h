// C++ types covering the library's type handlers, each with a generator, an equality and its meaning as a JSON value.
// Include after defining nothing else; uses namespace JS (which a build may rename with -DJS=...).
#pragma once
#ifndef JS_STD_OPTIONAL
#define JS_STD_OPTIONAL
#endif
#ifndef JS_STD_UNORDERED_MAP
#define JS_STD_UNORDERED_MAP
#endif
#ifndef JS_STD_TIMEPOINT
#define JS_STD_TIMEPOINT
#endif
#ifndef JS_STL_MAP
#define JS_STL_MAP
#endif
#ifndef JS_STL_SET
#define JS_STL_SET
#endif
#ifndef JS_STL_UNORDERED_SET
#define JS_STL_UNORDERED_SET
#endif
#ifndef JS_STL_ARRAY
#define JS_STL_ARRAY
#endif
#include <optional>
#include <tuple>
#include <array>
#include <memory>
#include <unordered_map>
#include <unordered_set>
#include "numutil.h"
#include <json_struct/json_struct.h>
#include "refjson.h"

namespace ty
{
using pbt::Src;
using ref::JV;

JS_ENUM(Color, Red, Green, DarkBlue, x1, None)
} // namespace ty
JS_ENUM_NAMESPACE_DECLARE_STRING_PARSER(ty, Color)
namespace ty
{
typedef std::chrono::high_resolution_clock::time_point TP;
typedef std::chrono::steady_clock::time_point STP;

template <typename T, typename E = void>
struct G; // gen, eq, jv, written

template <typename T>
bool eq(const T &a, const T &b) { return G<T>::eq(a, b); }
template <typename T>
void gen(Src &s, T &v) { G<T>::gen(s, v); }
template <typename T>
JV jv(const T &v) { return G<T>::jv(v); }
// whether the value appears in the output at all
template <typename T>
bool written(const T &v) { return G<T>::written(v); }

struct Always
{
  template <typename T>
  static bool written(const T &) { return true; }
};
struct ByEq
{
  template <typename T>
  static bool eq(const T &a, const T &b) { return a == b; }
};

template <>
struct G<bool> : Always, ByEq
{
  static void gen(Src &s, bool &v) { v = s.boolean(); }
  static JV jv(bool v) { return JV::boolean(v); }
};
template <typename T>
struct G<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> : Always, ByEq
{
  static void gen(Src &s, T &v)
  {
    switch (s.draw(5))
    {
    case 0: v = T(s.draw(10)); break;
    case 1: v = T(s.range(-130, 260)); break;
    case 2: v = std::numeric_limits<T>::max() - T(s.draw(3)); break;
    case 3: v = T(std::numeric_limits<T>::min() + T(s.draw(3))); break;
    default:
    {
      uint64_t x = s.bits64();
      v = T(x >> s.draw(64));
      if (std::is_signed<T>::value && s.boolean() && v != std::numeric_limits<T>::min())
        v = T(-v);
      break;
    }
    }
  }
  static JV jv(T v) { return JV::num(std::to_string(v)); }
};
template <>
struct G<double> : Always
{
  static void gen(Src &s, double &v)
  {
    v = num::genDouble(s);
    if (!std::isfinite(v))
      v = 0.5;
  }
  static bool eq(double a, double b) { return num::d2bits(a) == num::d2bits(b); }
  static JV jv(double v)
  {
    if (!std::isfinite(v))
      return JV::null();
    JV j = JV::num(pbt::fmt("%.17g", v));
    j.tag = 'd';
    return j;
  }
};
template <>
struct G<float> : Always
{
  static void gen(Src &s, float &v)
  {
    v = num::genFloat(s);
    if (!std::isfinite(v))
      v = 0.5f;
  }
  static bool eq(float a, float b) { return num::f2bits(a) == num::f2bits(b); }
  static JV jv(float v)
  {
    if (!std::isfinite(v))
      return JV::null();
    JV j = JV::num(pbt::fmt("%.9g", double(v)));
    j.tag = 'f';
    return j;
  }
};
template <>
struct G<std::string> : Always, ByEq
{
  static void gen(Src &s, std::string &v) { v = ref::genString(s, 80, true); }
  static JV jv(const std::string &v) { return JV::str(v); }
};
template <>
struct G<Color> : Always, ByEq
{
  static void gen(Src &s, Color &v) { v = Color(s.draw(5)); }
  static JV jv(Color v)
  {
    static const char *const n[] = {"Red", "Green", "DarkBlue", "x1", "None"};
    JV j = JV::str(n[int(v)]);
    j.tag = 'r';
    return j;
  }
};
template <>
struct G<TP> : Always, ByEq
{
  static void gen(Src &s, TP &v)
  {
    static const int64_t unit[] = {1000000000, 1000000, 1000, 1};
    int64_t u = unit[s.draw(4)];
    int64_t lo = 100000001000000000ll, hi = 9200000000000000000ll;
    int64_t t = lo + int64_t(s.bits64() % uint64_t(hi - lo));
    v = TP(std::chrono::nanoseconds(t / u * u));
  }
  static JV jv(TP v)
  {
    uint64_t t = uint64_t(std::chrono::duration_cast<std::chrono::nanoseconds>(v.time_since_epoch()).count());
    while (t % 1000 == 0 && t > 10000000000ull)
      t /= 1000;
    return JV::num(std::to_string(t));
  }
};
// a clock other than the high resolution one: microseconds
template <>
struct G<STP> : Always, ByEq
{
  static void gen(Src &s, STP &v)
  {
    static const int64_t unit[] = {1000000, 1000, 1};
    int64_t u = unit[s.draw(3)];
    int64_t lo = 100000001000000ll, hi = 9200000000000000ll;
    int64_t t = lo + int64_t(s.bits64() % uint64_t(hi - lo));
    v = STP(std::chrono::microseconds(t / u * u));
  }
  static JV jv(STP v)
  {
    uint64_t t = uint64_t(std::chrono::duration_cast<std::chrono::microseconds>(v.time_since_epoch()).count());
    while (t % 1000 == 0 && t > 10000000000ull)
      t /= 1000;
    return JV::num(std::to_string(t));
  }
};

template <typename It, typename F>
JV seqJv(It b, It e, F f)
{
  JV j = JV::arr();
  for (; b != e; ++b)
    j.a.push_back(f(*b));
  return j;
}

template <typename T>
struct G<std::vector<T>> : Always
{
  static void gen(Src &s, std::vector<T> &v)
  {
    v.clear();
    size_t n = s.size(12);
    for (size_t i = 0; i < n; i++)
    {
      T x{};
      ty::gen(s, x);
      v.push_back(std::move(x));
    }
  }
  static bool eq(const std::vector<T> &a, const std::vector<T> &b)
  {
    if (a.size() != b.size())
      return false;
    for (size_t i = 0; i < a.size(); i++)
    {
      const T &x = a[i], &y = b[i];
      if (!ty::eq<T>(x, y))
        return false;
    }
    return true;
  }
  static JV jv(const std::vector<T> &v)
  {
    return seqJv(v.begin(), v.end(), [](const T &x) { return ty::jv<T>(x); });
  }
};
template <typename T, size_t N>
struct G<T[N]> : Always
{
  static void gen(Src &s, T (&v)[N])
  {
    for (auto &x : v)
      ty::gen(s, x);
  }
  static bool eq(const T (&a)[N], const T (&b)[N])
  {
    for (size_t i = 0; i < N; i++)
      if (!ty::eq<T>(a[i], b[i]))
        return false;
    return true;
  }
  static JV jv(const T (&v)[N])
  {
    return seqJv(v, v + N, [](const T &x) { return ty::jv<T>(x); });
  }
};
template <typename T, size_t N>
struct G<std::array<T, N>> : Always
{
  static void gen(Src &s, std::array<T, N> &v)
  {
    for (auto &x : v)
      ty::gen(s, x);
  }
  static bool eq(const std::array<T, N> &a, const std::array<T, N> &b)
  {
    for (size_t i = 0; i < N; i++)
      if (!ty::eq<T>(a[i], b[i]))
        return false;
    return true;
  }
  static JV jv(const std::array<T, N> &v)
  {
    return seqJv(v.begin(), v.end(), [](const T &x) { return ty::jv<T>(x); });
  }
};
template <typename A, typename B, typename C>
struct G<std::tuple<A, B, C>> : Always
{
  typedef std::tuple<A, B, C> T;
  static void gen(Src &s, T &v)
  {
    ty::gen(s, std::get<0>(v));
    ty::gen(s, std::get<1>(v));
    ty::gen(s, std::get<2>(v));
  }
  static bool eq(const T &a, const T &b)
  {
    return ty::eq<A>(std::get<0>(a), std::get<0>(b)) && ty::eq<B>(std::get<1>(a), std::get<1>(b)) &&
           ty::eq<C>(std::get<2>(a), std::get<2>(b));
  }
  static JV jv(const T &v)
  {
    JV j = JV::arr();
    j.a = {ty::jv<A>(std::get<0>(v)), ty::jv<B>(std::get<1>(v)), ty::jv<C>(std::get<2>(v))};
    return j;
  }
};
template <typename A, typename B, typename C>
struct G<JS::Tuple<A, B, C>> : Always
{
  typedef JS::Tuple<A, B, C> T;
  static void gen(Src &s, T &v)
  {
    ty::gen(s, v.template get<0>());
    ty::gen(s, v.template get<1>());
    ty::gen(s, v.template get<2>());
  }
  static bool eq(const T &a, const T &b)
  {
    return ty::eq<A>(a.template get<0>(), b.template get<0>()) && ty::eq<B>(a.template get<1>(), b.template get<1>()) &&
           ty::eq<C>(a.template get<2>(), b.template get<2>());
  }
  static JV jv(const T &v)
  {
    JV j = JV::arr();
    j.a = {ty::jv<A>(v.template get<0>()), ty::jv<B>(v.template get<1>()), ty::jv<C>(v.template get<2>())};
    return j;
  }
};
template <typename T>
struct G<JS::Optional<T>> : Always
{
  static void gen(Src &s, JS::Optional<T> &v) { ty::gen(s, v.data); }
  static bool eq(const JS::Optional<T> &a, const JS::Optional<T> &b) { return ty::eq<T>(a.data, b.data); }
  static JV jv(const JS::Optional<T> &v) { return ty::jv<T>(v.data); }
};
template <typename T>
struct G<JS::OptionalChecked<T>>
{
  static void gen(Src &s, JS::OptionalChecked<T> &v)
  {
    v.data = T{};
    v.assigned = s.chance(2, 3);
    if (v.assigned)
      ty::gen(s, v.data);
  }
  static bool eq(const JS::OptionalChecked<T> &a, const JS::OptionalChecked<T> &b)
  {
    return a.assigned == b.assigned && (!a.assigned || ty::eq<T>(a.data, b.data));
  }
  static JV jv(const JS::OptionalChecked<T> &v) { return ty::jv<T>(v.data); }
  static bool written(const JS::OptionalChecked<T> &v) { return v.assigned; }
};
template <typename T>
struct G<JS::Nullable<T>> : Always
{
  static void gen(Src &s, JS::Nullable<T> &v) { ty::gen(s, v.data); }
  static bool eq(const JS::Nullable<T> &a, const JS::Nullable<T> &b) { return ty::eq<T>(a.data, b.data); }
  static JV jv(const JS::Nullable<T> &v) { return ty::jv<T>(v.data); }
};
template <typename T>
struct G<JS::NullableChecked<T>> : Always
{
  static void gen(Src &s, JS::NullableChecked<T> &v)
  {
    v.data = T{};
    v.null = s.chance(1, 3);
    if (!v.null)
      ty::gen(s, v.data);
  }
  static bool eq(const JS::NullableChecked<T> &a, const JS::NullableChecked<T> &b)
  {
    return a.null == b.null && (a.null || ty::eq<T>(a.data, b.data));
  }
  static JV jv(const JS::NullableChecked<T> &v) { return v.null ? JV::null() : ty::jv<T>(v.data); }
};
template <typename P, typename T>
struct PtrG : Always
{
  static void gen(Src &s, P &v)
  {
    v.reset();
    if (s.chance(2, 3))
    {
      v.reset(new T{});
      ty::gen(s, *v);
    }
  }
  static bool eq(const P &a, const P &b) { return !a == !b && (!a || ty::eq<T>(*a, *b)); }
  static JV jv(const P &v) { return v ? ty::jv<T>(*v) : JV::null(); }
};
template <typename T>
struct G<std::unique_ptr<T>> : PtrG<std::unique_ptr<T>, T> {};
template <typename T>
struct G<std::shared_ptr<T>> : PtrG<std::shared_ptr<T>, T> {};
template <typename T>
struct G<std::optional<T>>
{
  static void gen(Src &s, std::optional<T> &v)
  {
    v.reset();
    if (s.chance(2, 3))
    {
      v.emplace();
      ty::gen(s, *v);
    }
  }
  static bool eq(const std::optional<T> &a, const std::optional<T> &b) { return !a == !b && (!a || ty::eq<T>(*a, *b)); }
  static JV jv(const std::optional<T> &v) { return ty::jv<T>(*v); }
  static bool written(const std::optional<T> &v) { return v.has_value(); }
};
template <typename M>
struct MapG : Always
{
  typedef typename M::mapped_type T;
  static void gen(Src &s, M &v)
  {
    v.clear();
    size_t n = s.size(8);
    for (size_t i = 0; i < n; i++)
    {
      std::string k = ref::genName(s, ref::GenOpt());
      T x{};
      ty::gen(s, x);
      v[k] = std::move(x);
    }
  }
  static bool eq(const M &a, const M &b)
  {
    if (a.size() != b.size())
      return false;
    for (auto &p : a)
    {
      auto it = b.find(p.first);
      if (it == b.end() || !ty::eq<T>(p.second, it->second))
        return false;
    }
    return true;
  }
  static JV jv(const M &v)
  {
    JV j = JV::obj();
    for (auto &p : v)
      j.o.emplace_back(p.first, ty::jv<T>(p.second));
    return j;
  }
};
template <typename T>
struct G<std::map<std::string, T>> : MapG<std::map<std::string, T>> {};
template <typename T>
struct G<std::unordered_map<std::string, T>> : MapG<std::unordered_map<std::string, T>> {};
template <typename S>
struct SetG : Always, ByEq
{
  typedef typename S::value_type T;
  static void gen(Src &s, S &v)
  {
    v.clear();
    size_t n = s.size(8);
    for (size_t i = 0; i < n; i++)
    {
      T x{};
      ty::gen(s, x);
      v.insert(x);
    }
  }
  static JV jv(const S &v)
  {
    return seqJv(v.begin(), v.end(), [](const T &x) { return ty::jv<T>(x); });
  }
};
template <typename T>
struct G<std::set<T>> : SetG<std::set<T>> {};
template <typename T>
struct G<std::unordered_set<T>> : SetG<std::unordered_set<T>> {};
template <>
struct G<JS::SilentString>
{
  static void gen(Src &s, JS::SilentString &v) { ty::gen(s, v.data); }
  static bool eq(const JS::SilentString &a, const JS::SilentString &b) { return a.data == b.data; }
  static JV jv(const JS::SilentString &v) { return ty::jv(v.data); }
  static bool written(const JS::SilentString &v) { return !v.data.empty(); }
};
template <typename T>
struct G<JS::SilentVector<T>>
{
  typedef JS::SilentVector<T> V;
  static void gen(Src &s, V &v) { ty::gen(s, v.data); }
  static bool eq(const V &a, const V &b) { return ty::eq(a.data, b.data); }
  static JV jv(const V &v) { return ty::jv(v.data); }
  static bool written(const V &v) { return !v.data.empty(); }
};
template <typename T>
struct G<JS::SilentUniquePtr<T>>
{
  typedef JS::SilentUniquePtr<T> V;
  static void gen(Src &s, V &v) { ty::gen(s, v.data); }
  static bool eq(const V &a, const V &b) { return ty::eq(a.data, b.data); }
  static JV jv(const V &v) { return ty::jv(v.data); }
  static bool written(const V &v) { return !!v.data; }
};
template <typename T>
struct G<JS::OneOrMany<T>>
{
  typedef JS::OneOrMany<T> V;
  static void gen(Src &s, V &v) { ty::gen(s, v.data); }
  static bool eq(const V &a, const V &b) { return ty::eq(a.data, b.data); }
  static JV jv(const V &v) { return v.data.size() == 1 ? ty::jv<T>(v.data[0]) : ty::jv(v.data); }
  static bool written(const V &v) { return !v.data.empty(); }
};
template <typename T, size_t N>
struct G<JS::ArrayVariableContent<T, N>> : Always
{
  typedef JS::ArrayVariableContent<T, N> V;
  static void gen(Src &s, V &v)
  {
    v.size = s.draw(N + 1);
    for (size_t i = 0; i < v.size; i++)
      ty::gen(s, v.data[i]);
  }
  static bool eq(const V &a, const V &b)
  {
    if (a.size != b.size)
      return false;
    for (size_t i = 0; i < a.size; i++)
      if (!ty::eq<T>(a.data[i], b.data[i]))
        return false;
    return true;
  }
  static JV jv(const V &v)
  {
    return seqJv(v.data, v.data + v.size, [](const T &x) { return ty::jv<T>(x); });
  }
};
// raw text members: any container text, compared as values
template <typename R>
struct RawG : Always
{
  static JV val(const R &r, const char *empty)
  {
    JV j;
    std::string e;
    std::string t = r.data.empty() ? empty : r.data;
    if (!ref::parse(t, j, &e))
      pbt::fail("raw member holds text that is not JSON: " + pbt::printable(t) + " (" + e + ")");
    return j;
  }
};
inline JV rawDoc(Src &s, int kind) // 0 any, 1 object, 2 array
{
  ref::GenOpt g;
  g.depth = 3;
  g.width = 4;
  JV v;
  if (kind == 0)
    return ref::genDoc(s, g);
  v = kind == 1 ? JV::obj() : JV::arr();
  size_t n = s.size(4);
  for (size_t i = 0; i < n; i++)
  {
    if (kind == 1)
      v.o.emplace_back("k" + std::to_string(i), ref::genValue(s, g, 1));
    else
      v.a.push_back(ref::genValue(s, g, 1));
  }
  return v;
}
template <>
struct G<JS::JsonObject> : RawG<JS::JsonObject>
{
  static void gen(Src &s, JS::JsonObject &v) { v.data = ref::text(rawDoc(s, 1)); }
  static JV jv(const JS::JsonObject &v) { return val(v, "{}"); }
  static bool eq(const JS::JsonObject &a, const JS::JsonObject &b) { return a.data == b.data || ref::equal(jv(a), jv(b)); }
};
template <>
struct G<JS::JsonArray> : RawG<JS::JsonArray>
{
  static void gen(Src &s, JS::JsonArray &v) { v.data = ref::text(rawDoc(s, 2)); }
  static JV jv(const JS::JsonArray &v) { return val(v, "[]"); }
  static bool eq(const JS::JsonArray &a, const JS::JsonArray &b) { return a.data == b.data || ref::equal(jv(a), jv(b)); }
};
template <>
struct G<JS::JsonObjectOrArray> : RawG<JS::JsonObjectOrArray>
{
  static void gen(Src &s, JS::JsonObjectOrArray &v) { v.data = ref::text(rawDoc(s, 0)); }
  static JV jv(const JS::JsonObjectOrArray &v) { return val(v, "{}"); }
  static bool eq(const JS::JsonObjectOrArray &a, const JS::JsonObjectOrArray &b) { return a.data == b.data || ref::equal(jv(a), jv(b)); }
};

// ---- structs -----------------------------------------------------------------------------------
#define TY_GEN(T, n) ty::gen(s, v.n);
#define TY_EQ(T, n)                                                                                                    \
  if (!G<T>::eq(a.n, b.n))                                                                                             \
    return false;
#define TY_DIFF(T, n)                                                                                                  \
  if (!G<T>::eq(a.n, b.n))                                                                                             \
    return #n;
#define TY_JV(T, n)                                                                                                    \
  if (G<T>::written(v.n))                                                                                              \
    j.o.emplace_back(#n, G<T>::jv(v.n));

struct Leaf
{
  int n = 0;
  std::string s;
  bool b = false;
  JS_OBJ(n, s, b);
};
#define LEAF_MEMBERS(X) X(int, n) X(std::string, s) X(bool, b)
struct Mid
{
  double d = 0;
  Leaf leaf;
  std::vector<Leaf> leaves;
  std::unique_ptr<Leaf> maybe;
  JS_OBJ(d, leaf, leaves, maybe);
};
#define MID_MEMBERS(X) X(double, d) X(Leaf, leaf) X(std::vector<Leaf>, leaves) X(std::unique_ptr<Leaf>, maybe)

#define TY_STRUCT(S, M)                                                                                                \
  template <>                                                                                                          \
  struct G<S> : Always                                                                                                 \
  {                                                                                                                    \
    static void gen(Src &s, S &v) { M(TY_GEN) }                                                                        \
    static bool eq(const S &a, const S &b)                                                                             \
    {                                                                                                                  \
      M(TY_EQ)                                                                                                         \
      return true;                                                                                                     \
    }                                                                                                                  \
    static const char *diff(const S &a, const S &b)                                                                    \
    {                                                                                                                  \
      M(TY_DIFF)                                                                                                       \
      return nullptr;                                                                                                  \
    }                                                                                                                  \
    static JV jv(const S &v)                                                                                           \
    {                                                                                                                  \
      JV j = JV::obj();                                                                                                \
      M(TY_JV)                                                                                                         \
      return j;                                                                                                        \
    }                                                                                                                  \
  };

TY_STRUCT(Leaf, LEAF_MEMBERS)
TY_STRUCT(Mid, MID_MEMBERS)

struct Base1
{
  int base_i = 0;
  std::string base_s;
  JS_OBJ(base_i, base_s);
};
struct Base2
{
  std::vector<int> base_v;
  bool base_b = false;
  JS_OBJ(base_v, base_b);
};

typedef std::array<std::string, 2> ArS2;
typedef std::tuple<int, std::string, bool> Tup;
typedef JS::Tuple<int64_t, double, std::string> JTup;
typedef std::map<std::string, int> MapI;
typedef std::unordered_map<std::string, Leaf> UMapL;
typedef std::map<std::string, std::vector<std::string>> MapVS;
typedef JS::ArrayVariableContent<int, 4> Avc;
typedef int Int3[3];

#define U_OWN(X)                                                                                                       \
  X(bool, b) X(int8_t, i8) X(uint8_t, u8) X(int16_t, i16) X(uint16_t, u16) X(int32_t, i32) X(uint32_t, u32)            \
  X(int64_t, i64) X(uint64_t, u64) X(float, f) X(double, d) X(std::string, s) X(Color, e) X(std::vector<int>, vi)      \
  X(std::vector<bool>, vb) X(std::vector<std::string>, vs) X(std::vector<double>, vd) X(std::vector<Leaf>, vl)         \
  X(std::vector<std::vector<int>>, vvi) X(Int3, arr) X(ArS2, ars) X(Tup, tup) X(JTup, jtup) X(JS::Optional<int>, opt)  \
  X(JS::OptionalChecked<std::string>, optc) X(JS::Nullable<int>, nul) X(JS::NullableChecked<int>, nulc)                \
  X(std::unique_ptr<Leaf>, up) X(std::shared_ptr<int>, sp) X(std::optional<double>, so)                                \
  X(std::vector<std::unique_ptr<int>>, vup) X(MapI, mp) X(UMapL, um) X(MapVS, mvs) X(std::set<int>, st)                \
  X(std::unordered_set<std::string>, us) X(JS::SilentString, ss) X(JS::SilentVector<int>, sv)                          \
  X(JS::SilentUniquePtr<Leaf>, sup) X(JS::OneOrMany<int>, oom) X(Avc, avc) X(JS::JsonObject, jo) X(JS::JsonArray, ja)  \
  X(JS::JsonObjectOrArray, joa) X(Mid, mid) X(TP, tp) X(std::vector<Color>, ve) X(JS::OptionalChecked<Leaf>, ol)       \
  X(JS::NullableChecked<std::vector<int>>, nv) X(STP, stp)
// the library writes the members of the bases after the own ones, last base first
#define U_BASES(X) X(std::vector<int>, base_v) X(bool, base_b) X(int, base_i) X(std::string, base_s)
#define U_MEMBERS(X) U_OWN(X) U_BASES(X)

#define TY_DECL(T, n) T n{};
struct U : Base1, Base2
{
  U_OWN(TY_DECL)
  JS_OBJ_SUPER(JS_SUPER(Base1, Base2), b, i8, u8, i16, u16, i32, u32, i64, u64, f, d, s, e, vi, vb, vs, vd, vl, vvi, arr, ars, tup,
               jtup, opt, optc, nul, nulc, up, sp, so, vup, mp, um, mvs, st, us, ss, sv, sup, oom, avc, jo, ja, joa, mid, tp, ve,
               ol, nv, stp);
};
TY_STRUCT(U, U_MEMBERS)

// generating all members of U makes large cases; most cases fill in a few members and leave the rest at their default
inline void genSome(Src &s, U &u)
{
  unsigned rate = unsigned(1 + s.draw(8));
#define TY_SOME(T, n)                                                                                                  \
  if (s.chance(rate, 16))                                                                                              \
    ty::gen(s, u.n);
  U_MEMBERS(TY_SOME)
#undef TY_SOME
  if (u.tp.time_since_epoch().count() == 0)
    u.tp = TP(std::chrono::seconds(1500000000));
}
inline size_t changed(const U &a, const U &b)
{
  size_t n = 0;
#define TY_CNT(T, m) n += !G<T>::eq(a.m, b.m);
  U_MEMBERS(TY_CNT)
#undef TY_CNT
  return n;
}
} // namespace ty
