// Type-directed documents: for a destination type T, generates suitable and unsuitable documents and says what parsing one
// must do.  judge(): whether the document must be accepted, must be refused, or is a leniency nothing is claimed about.
// same(): whether a destination holds the value of the document.
#pragma once
#include "typed.h"
#include "jsutil.h"

namespace shape
{
using pbt::Src;
using ref::JV;

enum Judge { Must, Free, Known, Mustnt }; // ordered by severity; a container takes the worst of its parts

template <typename T, typename E = void>
struct O;

inline JV wild(Src &s, int depth = 0)
{
  switch (s.weighted({3, 2, 3, 2, depth < 2 ? 2u : 0u, depth < 2 ? 2u : 0u}))
  {
  case 0: return s.boolean() ? JV::num(int64_t(s.range(0, 9))) : JV::num(ref::genNumber(s));
  case 1: return JV::boolean(s.boolean());
  case 2:
    switch (s.draw(5))
    {
    case 0: return JV::str("");
    case 1: return JV::str(s.pick(std::vector<std::string>{"true", "false", "null", "1", "-2.5", "Red", "{", "[", "]", "}", "{}", "[]", " 1", "1 ", "0x1", "1e", "-", "True", "falsy", "fals", "truf", "truee", "falsee", "nulL", "FALSE", "t", "1a", "--1", "1.2.3", ".", "e1", "+"}));
    default: return JV::str(ref::genString(s, 40));
    }
  case 3: return JV::null();
  case 4:
  {
    JV v = JV::arr();
    size_t n = s.size(4);
    for (size_t i = 0; i < n; i++)
      v.a.push_back(wild(s, depth + 1));
    return v;
  }
  default:
  {
    JV v = JV::obj();
    size_t n = s.size(4);
    static const char *const names[] = {"v", "x", "s", "after", "i", "k", "last", "e"};
    for (size_t i = 0; i < n; i++)
    {
      std::string nm = s.pick(names);
      if (!v.find(nm))
        v.o.emplace_back(nm, wild(s, depth + 1));
    }
    return v;
  }
  }
}

inline bool numericText(const std::string &t) { return num::lenientNumber(t); }

// integers: any number is accepted (P12 decides which value); the value is checked for plain literals that fit
template <typename T>
struct O<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type>
{
  static JV gen(Src &s, int)
  {
    if (s.chance(1, 6))
      return JV::num(ref::genNumber(s));
    return JV::num(std::numeric_limits<T>::is_signed ? int64_t(s.range(-100, 100)) : int64_t(s.range(0, 200)));
  }
  static Judge judge(const JV &v)
  {
    if (v.k == ref::Num)
      return Must;
    if (v.k == ref::Str && numericText(v.s))
      return Free;
    return Mustnt;
  }
  static bool same(const T &x, const JV &v)
  {
    const std::string &t = v.s;
    if (t.size() > 18 || t.find_first_not_of("0123456789", t[0] == '-') != std::string::npos)
      return true;
    long long w = atoll(t.c_str());
    if (w < (long long)std::numeric_limits<T>::min() || (w > 0 && (unsigned long long)w > (unsigned long long)std::numeric_limits<T>::max()))
      return true;
    return (long long)x == w;
  }
};
template <typename F>
struct Fl
{
  static JV gen(Src &s, int) { return JV::num(ref::genNumber(s)); }
  static Judge judge(const JV &v)
  {
    if (v.k == ref::Num)
      return Must;
    if (v.k == ref::Str && numericText(v.s))
      return Free;
    return Mustnt;
  }
  static bool same(const F &x, const JV &v)
  {
    if (v.k != ref::Num)
      return true;
    long double w = strtold(v.s.c_str(), nullptr);
    long double mx = sizeof(F) == 4 ? 3.5e38L : 1.8e308L;
    if (w > mx || w < -mx)
      return true; // P10 decides
    long double d = fabsl((long double)x - w), tol = fabsl(w) * (sizeof(F) == 4 ? 1e-6L : 1e-14L) + (sizeof(F) == 4 ? 1e-44L : 1e-323L);
    return d <= tol || std::isinf((double)x);
  }
};
template <> struct O<double> : Fl<double> {};
template <> struct O<float> : Fl<float> {};
template <>
struct O<bool>
{
  static JV gen(Src &s, int) { return JV::boolean(s.boolean()); }
  static Judge judge(const JV &v) { return v.k == ref::Bool ? Must : v.k == ref::Str && (v.s == "true" || v.s == "false") ? Free : Mustnt; }
  static bool same(bool x, const JV &v) { return v.k == ref::Bool ? x == v.b : x == (v.s == "true"); }
};
template <>
struct O<std::string>
{
  static JV gen(Src &s, int) { return JV::str(ref::genString(s, 40)); }
  static Judge judge(const JV &v)
  {
    if (v.k == ref::Str)
      return Must;
    if (v.k == ref::Arr || v.k == ref::Obj)
      return Known; // must be refused; see known_findings.txt
    return Free;
  }
  static bool same(const std::string &x, const JV &v)
  {
    switch (v.k)
    {
    case ref::Str:
    case ref::Num: return x == v.s;
    case ref::Bool: return x == (v.b ? "true" : "false");
    case ref::Null: return x == "null";
    case ref::Arr: return x == "[";
    case ref::Obj: return x == "{";
    }
    return false;
  }
};
template <>
struct O<JS::SilentString>
{
  static JV gen(Src &s, int d) { return O<std::string>::gen(s, d); }
  static Judge judge(const JV &v) { return O<std::string>::judge(v); }
  static bool same(const JS::SilentString &x, const JV &v) { return O<std::string>::same(x.data, v); }
};
template <>
struct O<ty::Color>
{
  static const char *const *names()
  {
    static const char *const n[] = {"Red", "Green", "DarkBlue", "x1", "None"};
    return n;
  }
  static JV gen(Src &s, int)
  {
    if (s.chance(1, 5))
      return JV::num(int64_t(s.range(0, 4)));
    JV v = JV::str(names()[s.draw(5)]);
    v.tag = 'r';
    return v;
  }
  static int index(const JV &v)
  {
    for (int i = 0; i < 5; i++)
      if (v.k == ref::Str && v.s == names()[i])
        return i;
    return -1;
  }
  static Judge judge(const JV &v)
  {
    if (v.k == ref::Str)
      return index(v) < 0 ? Mustnt : v.tag == 'r' ? Must : Free;
    if (v.k == ref::Num)
    {
      if (v.s.size() == 1)
        return v.s[0] <= '4' ? Must : Mustnt;
      std::string c = ref::canonNum(v.s);
      // -0.x truncates to 0, and 4.x to 4
      double d = strtod(v.s.c_str(), nullptr);
      return d <= -1.5 || d >= 5.5 ? Mustnt : Free;
    }
    return Mustnt;
  }
  static bool same(const ty::Color &x, const JV &v)
  {
    int i = index(v);
    if (v.k == ref::Num)
    {
      if (v.s.size() != 1)
        return int(x) >= 0 && int(x) < 5; // truncated
      i = v.s[0] - '0';
    }
    return int(x) == i;
  }
};
// a time is a whole number of seconds, milliseconds, microseconds or nanoseconds, told apart by its magnitude
template <>
struct O<ty::TP>
{
  static JV gen(Src &s, int)
  {
    static const int64_t unit[] = {1, 1000, 1000000, 1000000000};
    int64_t t = s.chance(1, 8) ? s.range(1000000000, 9000000000) : s.range(1000000000, 2000000000);
    int64_t u = unit[s.draw(4)];
    if (s.chance(1, 12)) // around the last instant that fits, and beyond it
      return JV::num(std::to_string(s.boolean() ? uint64_t(INT64_MAX) - 3 + s.draw(8) : uint64_t(INT64_MAX) + s.bits64() / 2));
    return JV::num(u == 1 ? t : t * u + s.range(0, u - 1));
  }
  static int64_t unitOf(const JV &v) // in nanoseconds; 0: not a plain time, -1: beyond every unit
  {
    if (v.k != ref::Num || v.s[0] == '0' || v.s.find_first_not_of("0123456789") != std::string::npos)
      return 0;
    switch (v.s.size())
    {
    case 10: return v.s < "9200000000" ? 1000000000 : 0;
    case 13: return v.s < "9200000000000" ? 1000000 : 0;
    case 16: return v.s < "9200000000000000" ? 1000 : 0;
    case 19: return v.s <= "9223372036854775807" ? 1 : -1;
    default: return v.s.size() >= 20 ? -1 : 0;
    }
  }
  static Judge judge(const JV &v)
  {
    if (v.k == ref::Num)
      return unitOf(v) > 0 ? Must : unitOf(v) < 0 ? Mustnt : Free;
    if (v.k == ref::Str && numericText(v.s))
      return Free;
    return Mustnt;
  }
  static bool same(const ty::TP &x, const JV &v)
  {
    if (judge(v) != Must)
      return true;
    return x.time_since_epoch() == std::chrono::duration_cast<ty::TP::duration>(std::chrono::nanoseconds(int64_t(strtoll(v.s.c_str(), nullptr, 10)) * unitOf(v)));
  }
};

// sequences ------------------------------------------------------------------------------------------
template <typename T>
Judge judgeAll(const JV &v)
{
  Judge j = Must;
  for (auto &x : v.a)
    j = std::max(j, O<T>::judge(x));
  return j;
}
template <typename T>
JV genArr(Src &s, int d, size_t n)
{
  JV v = JV::arr();
  for (size_t i = 0; i < n; i++)
    v.a.push_back(O<T>::gen(s, d + 1));
  return v;
}
template <typename T>
struct O<std::vector<T>>
{
  static JV gen(Src &s, int d) { return genArr<T>(s, d, s.size(d > 1 ? 3 : 14)); }
  static Judge judge(const JV &v) { return v.k == ref::Arr ? judgeAll<T>(v) : Mustnt; }
  static bool same(const std::vector<T> &x, const JV &v)
  {
    if (x.size() != v.a.size())
      return false;
    for (size_t i = 0; i < x.size(); i++)
      if (!O<T>::same(x[i], v.a[i]))
        return false;
    return true;
  }
};
template <typename T>
struct O<JS::SilentVector<T>>
{
  static JV gen(Src &s, int d) { return O<std::vector<T>>::gen(s, d); }
  static Judge judge(const JV &v) { return O<std::vector<T>>::judge(v); }
  static bool same(const JS::SilentVector<T> &x, const JV &v) { return O<std::vector<T>>::same(x.data, v); }
};
template <typename T>
struct O<JS::OneOrMany<T>>
{
  static JV gen(Src &s, int d) { return s.boolean() ? O<T>::gen(s, d) : O<std::vector<T>>::gen(s, d); }
  static Judge judge(const JV &v) { return v.k == ref::Arr ? judgeAll<T>(v) : O<T>::judge(v); }
  static bool same(const JS::OneOrMany<T> &x, const JV &v)
  {
    if (v.k == ref::Arr)
      return O<std::vector<T>>::same(x.data, v);
    return x.data.size() == 1 && O<T>::same(x.data[0], v);
  }
};
template <typename A, typename T, size_t N>
struct FixedArr
{
  static JV gen(Src &s, int d) { return genArr<T>(s, d, s.chance(1, 8) ? s.draw(N + 3) : N); }
  static Judge judge(const JV &v) { return v.k == ref::Arr && v.a.size() == N ? judgeAll<T>(v) : Mustnt; }
  static bool same(const A &x, const JV &v)
  {
    for (size_t i = 0; i < N; i++)
      if (!O<T>::same(x[i], v.a[i]))
        return false;
    return true;
  }
};
template <typename T, size_t N> struct O<T[N]> : FixedArr<T[N], T, N> {};
template <typename T, size_t N> struct O<std::array<T, N>> : FixedArr<std::array<T, N>, T, N> {};
template <typename T, size_t N>
struct O<JS::ArrayVariableContent<T, N>>
{
  static JV gen(Src &s, int d) { return genArr<T>(s, d, s.draw(N + (s.chance(1, 8) ? 3 : 1))); }
  static Judge judge(const JV &v) { return v.k == ref::Arr && v.a.size() <= N ? judgeAll<T>(v) : Mustnt; }
  static bool same(const JS::ArrayVariableContent<T, N> &x, const JV &v)
  {
    if (x.size != v.a.size())
      return false;
    for (size_t i = 0; i < x.size; i++)
      if (!O<T>::same(x.data[i], v.a[i]))
        return false;
    return true;
  }
};
template <typename A, typename B, typename C>
struct Tup3
{
  static JV gen(Src &s, int d)
  {
    JV v = JV::arr();
    v.a.push_back(O<A>::gen(s, d + 1));
    v.a.push_back(O<B>::gen(s, d + 1));
    v.a.push_back(O<C>::gen(s, d + 1));
    if (s.chance(1, 8))
      s.boolean() ? v.a.pop_back() : v.a.push_back(wild(s));
    return v;
  }
  static Judge judge(const JV &v)
  {
    if (v.k != ref::Arr || v.a.size() != 3)
      return Mustnt;
    return std::max(O<A>::judge(v.a[0]), std::max(O<B>::judge(v.a[1]), O<C>::judge(v.a[2])));
  }
};
template <typename A, typename B, typename C>
struct O<std::tuple<A, B, C>> : Tup3<A, B, C>
{
  static bool same(const std::tuple<A, B, C> &x, const JV &v) { return O<A>::same(std::get<0>(x), v.a[0]) && O<B>::same(std::get<1>(x), v.a[1]) && O<C>::same(std::get<2>(x), v.a[2]); }
};
template <typename A, typename B, typename C>
struct O<JS::Tuple<A, B, C>> : Tup3<A, B, C>
{
  static bool same(const JS::Tuple<A, B, C> &x, const JV &v) { return O<A>::same(x.template get<0>(), v.a[0]) && O<B>::same(x.template get<1>(), v.a[1]) && O<C>::same(x.template get<2>(), v.a[2]); }
};
template <typename S, typename T>
struct Sets
{
  static JV gen(Src &s, int d)
  {
    JV v = genArr<T>(s, d, s.size(8));
    if (!s.chance(1, 10)) // mostly without duplicates
    {
      JV w = JV::arr();
      for (auto &x : v.a)
      {
        bool dup = false;
        for (auto &y : w.a)
          dup = dup || ref::equal(x, y);
        if (!dup)
          w.a.push_back(x);
      }
      return w;
    }
    return v;
  }
  static Judge judge(const JV &v)
  {
    if (v.k != ref::Arr)
      return Mustnt;
    Judge j = judgeAll<T>(v);
    if (j != Must)
      return j;
    for (size_t i = 0; i < v.a.size(); i++)
      for (size_t k = 0; k < i; k++)
        if (ref::equal(v.a[i], v.a[k]))
          return Mustnt; // a duplicate
    for (auto &x : v.a)
      if (x.k == ref::Num && (x.s.find_first_not_of("-0123456789") != std::string::npos || x.s.size() > 9))
        return Free; // 1.2 and 1.5 are both 1
      else if (x.k == ref::Num && x.s == "-0")
        return Free;
    return Must;
  }
  static bool same(const S &x, const JV &v)
  {
    if (x.size() != v.a.size())
      return false;
    std::vector<bool> hit(v.a.size());
    for (auto &e : x)
    {
      bool ok = false;
      for (size_t i = 0; i < v.a.size() && !ok; i++)
        if (!hit[i] && O<T>::same(e, v.a[i]))
          ok = hit[i] = true;
      if (!ok && judge(v) == Must)
        return false;
    }
    return true;
  }
};
template <typename T> struct O<std::set<T>> : Sets<std::set<T>, T> {};
template <typename T> struct O<std::unordered_set<T>> : Sets<std::unordered_set<T>, T> {};

// wrappers -------------------------------------------------------------------------------------------
template <typename T>
struct O<JS::Optional<T>>
{
  static JV gen(Src &s, int d) { return O<T>::gen(s, d); }
  static Judge judge(const JV &v) { return O<T>::judge(v); }
  static bool same(const JS::Optional<T> &x, const JV &v) { return O<T>::same(x.data, v); }
};
template <typename T>
struct O<JS::OptionalChecked<T>>
{
  static JV gen(Src &s, int d) { return O<T>::gen(s, d); }
  static Judge judge(const JV &v) { return O<T>::judge(v); }
  static bool same(const JS::OptionalChecked<T> &x, const JV &v) { return x.assigned && O<T>::same(x.data, v); }
};
template <typename T>
struct O<std::optional<T>>
{
  static JV gen(Src &s, int d) { return O<T>::gen(s, d); }
  static Judge judge(const JV &v) { return v.k == ref::Null ? Free : O<T>::judge(v); }
  static bool same(const std::optional<T> &x, const JV &v)
  {
    if (v.k == ref::Null)
      return true;
    return x.has_value() && O<T>::same(*x, v);
  }
};
template <typename T>
struct O<JS::Nullable<T>>
{
  static JV gen(Src &s, int d) { return s.chance(1, 4) ? JV::null() : O<T>::gen(s, d); }
  static Judge judge(const JV &v) { return v.k == ref::Null ? Must : O<T>::judge(v); }
  static bool same(const JS::Nullable<T> &x, const JV &v) { return v.k == ref::Null || O<T>::same(x.data, v); }
};
template <typename T>
struct O<JS::NullableChecked<T>>
{
  static JV gen(Src &s, int d) { return s.chance(1, 4) ? JV::null() : O<T>::gen(s, d); }
  static Judge judge(const JV &v) { return v.k == ref::Null ? Must : O<T>::judge(v); }
  static bool same(const JS::NullableChecked<T> &x, const JV &v) { return v.k == ref::Null ? x.null : !x.null && O<T>::same(x.data, v); }
};
template <typename P, typename T>
struct PtrO
{
  static JV gen(Src &s, int d) { return s.chance(1, 4) ? JV::null() : O<T>::gen(s, d); }
  static Judge judge(const JV &v) { return v.k == ref::Null ? Must : O<T>::judge(v); }
  static bool same(const P &x, const JV &v) { return v.k == ref::Null ? !x : x && O<T>::same(*x, v); }
};
template <typename T> struct O<std::unique_ptr<T>> : PtrO<std::unique_ptr<T>, T> {};
template <typename T> struct O<std::shared_ptr<T>> : PtrO<std::shared_ptr<T>, T> {};
template <typename T>
struct O<JS::SilentUniquePtr<T>>
{
  static JV gen(Src &s, int d) { return O<std::unique_ptr<T>>::gen(s, d); }
  static Judge judge(const JV &v) { return O<std::unique_ptr<T>>::judge(v); }
  static bool same(const JS::SilentUniquePtr<T> &x, const JV &v) { return O<std::unique_ptr<T>>::same(x.data, v); }
};

// maps and raw JSON ----------------------------------------------------------------------------------
template <typename M, typename T>
struct Maps
{
  static JV gen(Src &s, int d)
  {
    JV v = JV::obj();
    size_t n = s.size(d > 1 ? 3 : 6);
    ref::GenOpt g;
    for (size_t i = 0; i < n; i++)
    {
      std::string nm = ref::genName(s, g);
      if (!v.find(nm))
        v.o.emplace_back(nm, O<T>::gen(s, d + 1));
    }
    return v;
  }
  static Judge judge(const JV &v)
  {
    if (v.k != ref::Obj)
      return Mustnt;
    Judge j = Must;
    for (auto &x : v.o)
      j = std::max(j, O<T>::judge(x.second));
    return j;
  }
  static bool same(const M &x, const JV &v)
  {
    if (x.size() != v.o.size())
      return false;
    for (auto &m : v.o)
    {
      auto it = x.find(m.first);
      if (it == x.end() || !O<T>::same(it->second, m.second))
        return false;
    }
    return true;
  }
};
template <typename T> struct O<std::map<std::string, T>> : Maps<std::map<std::string, T>, T> {};
template <typename T> struct O<std::unordered_map<std::string, T>> : Maps<std::unordered_map<std::string, T>, T> {};

inline bool denotes(const char *p, size_t n, const JV &v)
{
  JV g;
  return ref::parse(std::string(p, n), g) && ref::equal(g, v);
}
template <typename R, bool Ob, bool Ar>
struct RawO
{
  static JV gen(Src &s, int)
  {
    ref::GenOpt g;
    g.depth = 3;
    for (int i = 0; i < 20; i++)
    {
      JV v = ref::genContainer(s, g, 0);
      if (v.k == ref::Obj ? Ob : Ar)
      {
        ref::extreme(s, v, 600);
        return v;
      }
    }
    return Ob ? JV::obj() : JV::arr();
  }
  static Judge judge(const JV &v) { return (v.k == ref::Obj && Ob) || (v.k == ref::Arr && Ar) ? Must : Mustnt; }
};
template <typename R, bool Ob, bool Ar>
struct RawOwn : RawO<R, Ob, Ar>
{
  static bool same(const R &x, const JV &v) { return denotes(x.data.data(), x.data.size(), v); }
};
template <typename R, bool Ob, bool Ar>
struct RawRef : RawO<R, Ob, Ar>
{
  static bool same(const R &x, const JV &v) { return denotes(x.ref.data, x.ref.size, v); }
};
template <> struct O<JS::JsonObject> : RawOwn<JS::JsonObject, true, false> {};
template <> struct O<JS::JsonArray> : RawOwn<JS::JsonArray, false, true> {};
template <> struct O<JS::JsonObjectOrArray> : RawOwn<JS::JsonObjectOrArray, true, true> {};
template <> struct O<JS::JsonObjectRef> : RawRef<JS::JsonObjectRef, true, false> {};
template <> struct O<JS::JsonArrayRef> : RawRef<JS::JsonArrayRef, false, true> {};
template <> struct O<JS::JsonObjectOrArrayRef> : RawRef<JS::JsonObjectOrArrayRef, true, true> {};

// tokens of a value without the names of its root
inline bool tokensDenote(const std::vector<JS::Token> &t, const JV &v)
{
  // print the tokens and compare the meaning
  std::string o;
  std::vector<bool> first;
  for (size_t i = 0; i < t.size(); i++)
  {
    char k = glue::kindOf(t[i].value_type);
    if (k == '}' || k == ']')
    {
      if (first.empty())
        return false;
      first.pop_back();
      o += k;
      continue;
    }
    if (i && !first.empty())
    {
      if (!first.back())
        o += ",";
      first.back() = false;
    }
    ref::Tok c = glue::conv(t[i]);
    if (i && c.named)
      o += "\"" + c.name + "\":";
    if (k == 's')
      o += "\"" + c.value + "\"";
    else
      o += c.value;
    if (k == '{' || k == '[')
      first.push_back(true);
  }
  return first.empty() && denotes(o.data(), o.size(), v);
}
template <>
struct O<std::vector<JS::Token>>
{
  static JV gen(Src &s, int) { return wild(s); }
  static Judge judge(const JV &) { return Must; }
  static bool same(const std::vector<JS::Token> &x, const JV &v) { return tokensDenote(x, v); }
};
template <>
struct O<JS::JsonTokens>
{
  static JV gen(Src &s, int) { return wild(s); }
  static Judge judge(const JV &) { return Must; }
  static bool same(const JS::JsonTokens &x, const JV &v) { return tokensDenote(x.data, v); }
};

// structs --------------------------------------------------------------------------------------------
struct In
{
  int i = 0;
  std::string s;
  std::vector<int> v;
  bool e = false;
  JS_OBJ(i, s, v, e);
};
template <typename T>
Judge jm(const JV &v, const char *n)
{
  Judge j = Must;
  for (auto &m : v.o)
    if (m.first == n)
      j = std::max(j, O<T>::judge(m.second));
  return j;
}
template <typename T>
bool sm(const T &x, const JV &v, const char *n)
{
  const JV *last = nullptr;
  for (auto &m : v.o)
    if (m.first == n)
      last = &m.second;
  return !last || O<T>::same(x, *last);
}
template <>
struct O<In>
{
  static JV gen(Src &s, int d)
  {
    JV v = JV::obj();
    if (!s.chance(1, 8))
      v.o.emplace_back("i", O<int>::gen(s, d));
    if (!s.chance(1, 8))
      v.o.emplace_back("s", O<std::string>::gen(s, d));
    if (s.chance(1, 6))
      v.o.emplace_back("unknown", wild(s, 1));
    if (!s.chance(1, 8))
      v.o.emplace_back("v", O<std::vector<int>>::gen(s, d + 1));
    if (!s.chance(1, 8))
      v.o.emplace_back("e", O<bool>::gen(s, d));
    return v;
  }
  static Judge judge(const JV &v)
  {
    if (v.k != ref::Obj)
      return Mustnt;
    return std::max(std::max(jm<int>(v, "i"), jm<std::string>(v, "s")), std::max(jm<std::vector<int>>(v, "v"), jm<bool>(v, "e")));
  }
  static bool same(const In &x, const JV &v) { return sm(x.i, v, "i") && sm(x.s, v, "s") && sm(x.v, v, "v") && sm(x.e, v, "e"); }
};

// all values inside a document
inline void nodes(JV &v, std::vector<JV *> &out)
{
  out.push_back(&v);
  for (auto &x : v.a)
    nodes(x, out);
  for (auto &x : v.o)
    nodes(x.second, out);
}
inline void damage(Src &s, JV &v)
{
  std::vector<JV *> n;
  nodes(v, n);
  JV *p = n[s.draw(n.size())];
  JV old = *p;
  switch (s.draw(4))
  {
  case 0: *p = JV::arr(); p->a.push_back(old); break;  // wrapped in an array
  case 1: *p = JV::obj(); p->o.emplace_back(s.boolean() ? "v" : "x", old); break;
  default: *p = wild(s); break;
  }
}

typedef std::array<std::string, 2> ArS2;
typedef int Int3[3];
typedef std::string Str2[2];
typedef std::tuple<int, std::string, bool> StdTup;
typedef JS::Tuple<std::string, std::vector<int>, double> JsTup;
typedef std::map<std::string, std::vector<std::string>> MapVS;
typedef std::map<std::string, std::map<std::string, bool>> MapMap;
typedef std::unordered_map<std::string, In> UMapIn;
typedef JS::ArrayVariableContent<int, 4> Avc4;
typedef JS::ArrayVariableContent<std::string, 3> AvcS3;
typedef std::vector<std::vector<std::string>> VVS;
typedef std::vector<std::array<std::string, 2>> VArS;
typedef std::vector<std::map<std::string, int>> VMap;
#define SHAPE_TYPES(X)                                                                                                 \
  X(int) X(uint8_t) X(int64_t) X(double) X(float) X(bool) X(std::string) X(ty::Color) X(ty::TP) X(std::vector<int>)    \
  X(std::vector<bool>) X(std::vector<std::string>) X(VVS) X(std::vector<In>) X(Int3) X(Str2) X(ArS2) X(StdTup) X(JsTup) \
  X(JS::Optional<int>) X(JS::OptionalChecked<std::vector<int>>) X(std::optional<In>) X(JS::Nullable<double>)           \
  X(JS::NullableChecked<In>) X(std::unique_ptr<In>) X(std::shared_ptr<std::vector<std::string>>) X(MapVS) X(UMapIn)    \
  X(MapMap) X(std::set<int>) X(std::unordered_set<std::string>) X(JS::SilentString) X(JS::SilentVector<bool>)          \
  X(JS::SilentUniquePtr<In>) X(JS::OneOrMany<int>) X(JS::OneOrMany<In>) X(Avc4) X(AvcS3) X(JS::JsonObject)             \
  X(JS::JsonArray) X(JS::JsonObjectOrArray) X(JS::JsonObjectRef) X(JS::JsonArrayRef) X(JS::JsonObjectOrArrayRef)       \
  X(JS::JsonTokens) X(In) X(VArS) X(VMap) X(JS::OneOrMany<std::string>)
} // namespace shape
