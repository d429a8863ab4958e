#define JS_STD_OPTIONAL
#define JS_STL_MAP
#include <optional>
#include <memory>
#include <map>
#include "jsutil.h"
using namespace pbt;
using namespace glue;
using ref::JV;
const char *const PROP_ID = "P16";
const char *const PROP_RULE =
  "Cases are histories of up to 12 operations on one struct with 22 wrapped members (optional, checked optional, nullable, checked "
  "nullable, unique/shared pointer, standard optional, silent string/vector/pointer; of int, string, vector, struct; nested wrappers "
  "and wrappers in vectors and maps): parse a document with any mix of absent, null and valued members, assign from C++, copy and "
  "move, serialize (in either style) and read back. Oracle: a per-member state model. Non-trivial: the history parses at least one null or omits "
  "a member that was set before.";
void prop_init() {}

struct In
{
  int i = 0;
  std::string s;
  JS_OBJ(i, s);
};

// inner values <-> model
template <typename T> struct I;
template <>
struct I<int>
{
  static JV gen(Src &s, bool) { return JV::num(int64_t(s.range(-50, 1000))); }
  static JV dflt() { return JV::num(int64_t(0)); }
  static int make(const JV &v) { return atoi(v.s.c_str()); }
  static JV dump(int x) { return JV::num(int64_t(x)); }
  static bool nullOk() { return false; }
};
template <>
struct I<std::string>
{
  static JV gen(Src &s, bool) { return JV::str(ref::genString(s, 20)); }
  static JV dflt() { return JV::str(""); }
  static std::string make(const JV &v) { return v.s; }
  static JV dump(const std::string &x) { return JV::str(x); }
  static bool nullOk() { return true; } // no claim: the text of the token is taken
};
template <>
struct I<std::vector<int>>
{
  static JV gen(Src &s, bool)
  {
    JV v = JV::arr();
    size_t n = s.size(5);
    for (size_t i = 0; i < n; i++)
      v.a.push_back(I<int>::gen(s, true));
    return v;
  }
  static JV dflt() { return JV::arr(); }
  static std::vector<int> make(const JV &v)
  {
    std::vector<int> r;
    for (auto &x : v.a)
      r.push_back(I<int>::make(x));
    return r;
  }
  static JV dump(const std::vector<int> &x)
  {
    JV v = JV::arr();
    for (int i : x)
      v.a.push_back(I<int>::dump(i));
    return v;
  }
  static bool nullOk() { return false; }
};
template <>
struct I<In>
{
  static JV gen(Src &s, bool full)
  {
    JV v = JV::obj();
    if (full || s.chance(3, 4))
      v.o.emplace_back("i", I<int>::gen(s, true));
    if (full || s.chance(3, 4))
      v.o.emplace_back("s", I<std::string>::gen(s, true));
    return v;
  }
  static JV dflt()
  {
    JV v = JV::obj();
    v.o.emplace_back("i", JV::num(int64_t(0)));
    v.o.emplace_back("s", JV::str(""));
    return v;
  }
  static In make(const JV &v)
  {
    In r;
    r.i = atoi(v.o[0].second.s.c_str());
    r.s = v.o[1].second.s;
    return r;
  }
  static JV dump(const In &x)
  {
    JV v = dflt();
    v.o[0].second = JV::num(int64_t(x.i));
    v.o[1].second.s = x.s;
    return v;
  }
  static bool nullOk() { return false; }
};
static JV merged(JV base, const JV &d)
{
  if (d.k != ref::Obj)
    return d;
  for (auto &m : d.o)
    for (auto &b : base.o)
      if (b.first == m.first)
        b.second = m.second;
  return base;
}

struct St
{
  bool flag = false; // assigned / not null / has a value
  JV data;
};
enum Null { Clears, Ignored, Error_, Unclaimed };

// wrapper behaviour: W<X>: state of a member, effect of null and of a value, effect of C++ assignment, whether written
template <typename X> struct W;
template <typename T>
struct W<JS::Optional<T>>
{
  typedef T Inner;
  static St get(const JS::Optional<T> &x) { return St{true, I<T>::dump(x())}; }
  static Null null() { return I<T>::nullOk() ? Unclaimed : Error_; }
  static bool full(const St &) { return false; }
  static St start() { return St{true, I<T>::dflt()}; }
  static JV base(const St &o) { return o.data; }
  static void assign(JS::Optional<T> &x, const JV &v, bool mv) { T t = I<T>::make(v); if (mv) x = std::move(t); else x = t; }
  static int written(const St &) { return 1; }
};
template <typename T>
struct W<JS::Nullable<T>> : W<JS::Optional<T>>
{
  static St get(const JS::Nullable<T> &x) { return St{true, I<T>::dump(x())}; }
  static Null null() { return Ignored; }
  static void assign(JS::Nullable<T> &x, const JV &v, bool mv) { T t = I<T>::make(v); if (mv) x = std::move(t); else x = t; }
};
template <typename T>
struct W<JS::OptionalChecked<T>>
{
  typedef T Inner;
  static St get(const JS::OptionalChecked<T> &x)
  {
    auto o = x.opt();
    PBT_CHECK(o.has_value() == x.assigned, "opt() does not match assigned");
    return St{x.assigned, I<T>::dump(x())};
  }
  static Null null() { return I<T>::nullOk() ? Unclaimed : Error_; }
  static bool full(const St &o) { return !o.flag; }
  static St start() { return St{false, I<T>::dflt()}; }
  static JV base(const St &o) { return o.data; }
  static void assign(JS::OptionalChecked<T> &x, const JV &v, bool mv) { T t = I<T>::make(v); if (mv) x = std::move(t); else x = t; }
  static int written(const St &o) { return o.flag; }
};
template <typename T>
struct W<JS::NullableChecked<T>>
{
  typedef T Inner;
  static St get(const JS::NullableChecked<T> &x) { return St{!x.null, I<T>::dump(x())}; }
  static Null null() { return Clears; }
  static bool full(const St &o) { return !o.flag; }
  static St start() { return St{false, I<T>::dflt()}; }
  static JV base(const St &o) { return o.data; }
  static void assign(JS::NullableChecked<T> &x, const JV &v, bool mv) { T t = I<T>::make(v); if (mv) x = std::move(t); else x = t; }
  static int written(const St &o) { return o.flag ? 1 : 2; } // 2: as null
};
template <typename P, typename T>
struct WP
{
  typedef T Inner;
  static St get(const P &x) { return St{bool(x), x ? I<T>::dump(*x) : I<T>::dflt()}; }
  static Null null() { return Clears; }
  static bool full(const St &) { return false; }
  static St start() { return St{false, I<T>::dflt()}; }
  static JV base(const St &o) { return o.flag ? o.data : I<T>::dflt(); }
  static void assign(P &x, const JV &v, bool) { x.reset(new T(I<T>::make(v))); }
  static int written(const St &o) { return o.flag ? 1 : 2; }
};
template <typename T> struct W<std::unique_ptr<T>> : WP<std::unique_ptr<T>, T> {};
template <typename T> struct W<std::shared_ptr<T>> : WP<std::shared_ptr<T>, T> {};
template <typename T>
struct W<JS::SilentUniquePtr<T>> : WP<std::unique_ptr<T>, T>
{
  static St get(const JS::SilentUniquePtr<T> &x) { return WP<std::unique_ptr<T>, T>::get(x.data); }
  static void assign(JS::SilentUniquePtr<T> &x, const JV &v, bool) { x.data.reset(new T(I<T>::make(v))); }
  static int written(const St &o) { return o.flag; }
};
template <typename T>
struct W<std::optional<T>>
{
  typedef T Inner;
  static St get(const std::optional<T> &x) { return St{x.has_value(), x ? I<T>::dump(*x) : I<T>::dflt()}; }
  static Null null() { return Unclaimed; }
  static bool full(const St &) { return false; }
  static St start() { return St{false, I<T>::dflt()}; }
  static JV base(const St &) { return I<T>::dflt(); }
  static void assign(std::optional<T> &x, const JV &v, bool) { x = I<T>::make(v); }
  static int written(const St &o) { return o.flag; }
};
template <>
struct W<JS::SilentString>
{
  typedef std::string Inner;
  static St get(const JS::SilentString &x) { return St{true, JV::str(x.data)}; }
  static Null null() { return Unclaimed; }
  static bool full(const St &) { return false; }
  static St start() { return St{true, JV::str("")}; }
  static JV base(const St &o) { return o.data; }
  static void assign(JS::SilentString &x, const JV &v, bool) { x.data = v.s; }
  static int written(const St &o) { return !o.data.s.empty(); }
};
template <>
struct W<JS::SilentVector<int>>
{
  typedef std::vector<int> Inner;
  static St get(const JS::SilentVector<int> &x) { return St{true, I<std::vector<int>>::dump(x.data)}; }
  static Null null() { return Error_; }
  static bool full(const St &) { return false; }
  static St start() { return St{true, JV::arr()}; }
  static JV base(const St &o) { return o.data; }
  static void assign(JS::SilentVector<int> &x, const JV &v, bool) { x.data = I<std::vector<int>>::make(v); }
  static int written(const St &o) { return !o.data.a.empty(); }
};

typedef std::vector<int> VI;
typedef std::vector<std::unique_ptr<int>> VUp;
typedef std::vector<JS::NullableChecked<int>> VNc;
typedef std::map<std::string, JS::NullableChecked<int>> MNc;
#define MEMBERS(X)                                                                                                     \
  X(JS::Optional<int>, oi) X(JS::Optional<In>, on) X(JS::OptionalChecked<int>, ci) X(JS::OptionalChecked<std::string>, cs) \
  X(JS::OptionalChecked<VI>, cv) X(JS::OptionalChecked<In>, cn) X(JS::Nullable<int>, ni) X(JS::Nullable<std::string>, ns) \
  X(JS::NullableChecked<int>, ki) X(JS::NullableChecked<VI>, kv) X(JS::NullableChecked<In>, kn) X(std::unique_ptr<int>, ui) \
  X(std::unique_ptr<In>, un) X(std::shared_ptr<std::string>, ss) X(std::shared_ptr<In>, sn) X(std::optional<int>, ti)  \
  X(std::optional<In>, tn) X(JS::SilentString, qs) X(JS::SilentVector<int>, qv) X(JS::SilentUniquePtr<In>, qu)
struct S
{
#define DECL(T, n) T n;
  MEMBERS(DECL)
  VUp lu;
  VNc ln;
  MNc mn;
  int end = 0;
  JS_OBJ(oi, on, ci, cs, cv, cn, ni, ns, ki, kv, kn, ui, un, ss, sn, ti, tn, qs, qv, qu, lu, ln, mn, end);
};

struct Model
{
  std::map<std::string, St> m;
  std::vector<JV> lu, ln;
  std::map<std::string, JV> mn;
  int end = 0;
};

static bool sameSt(const St &a, const St &b) { return a.flag == b.flag && (!a.flag || ref::equal(a.data, b.data)); }
static std::string showSt(const St &a) { return a.flag ? ref::text(a.data) : "(empty)"; }
static JV nullableJv(const JS::NullableChecked<int> &x) { return x.null ? JV::null() : JV::num(int64_t(x.data)); }

static void compare(const S &x, const Model &m, const std::string &what)
{
#define CMP(T, n)                                                                                                      \
  {                                                                                                                    \
    St g = W<T>::get(x.n);                                                                                             \
    const St &w = m.m.at(#n);                                                                                          \
    PBT_CHECK(sameSt(g, w), what + ": " #T " " #n " is " + showSt(g) + ", expected " + showSt(w));                      \
  }
  MEMBERS(CMP)
  PBT_CHECK(x.lu.size() == m.lu.size() && x.ln.size() == m.ln.size() && x.mn.size() == m.mn.size(), what + ": container sizes");
  for (size_t i = 0; i < x.lu.size(); i++)
    PBT_CHECK(ref::equal(x.lu[i] ? JV::num(int64_t(*x.lu[i])) : JV::null(), m.lu[i]), what + ": vector of unique_ptr");
  for (size_t i = 0; i < x.ln.size(); i++)
    PBT_CHECK(ref::equal(nullableJv(x.ln[i]), m.ln[i]), what + ": vector of NullableChecked");
  for (auto &p : x.mn)
    PBT_CHECK(m.mn.count(p.first) && ref::equal(nullableJv(p.second), m.mn.at(p.first)), what + ": map of NullableChecked");
  PBT_CHECK(x.end == m.end, what + ": member after the wrappers");
}

#define START2(T, n) my.m[#n] = W<T>::start();
#define FILL(T, nm)                                                                                                    \
  if (s.chance(rate, 8))                                                                                               \
  {                                                                                                                    \
    JV v = I<W<T>::Inner>::gen(s, true);                                                                               \
    W<T>::assign(y.nm, v, s.boolean());                                                                                \
    my.m[#nm] = St{true, v};                                                                                           \
    c.identity(#nm + ref::text(v));                                                                                    \
  }
static JV nullOrInt(Src &s) { return s.chance(1, 3) ? JV::null() : I<int>::gen(s, true); }

void run_case(Src &s, Ctx &c)
{
  S x;
  Model m;
#define START(T, n) m.m[#n] = W<T>::start();
  MEMBERS(START)
  compare(x, m, "fresh");
  size_t ops = 1 + s.draw(12);
  for (size_t op = 0; op < ops; op++)
  {
    std::string tag = "step " + std::to_string(op);
    switch (s.weighted({6, 2, 1, 3, 1}))
    {
    case 0:
    {
      JV doc = JV::obj();
      bool wantError = false, unclaimed = false;
      unsigned rate = unsigned(1 + s.draw(7));
      Model old = m;
#define PUT(T, n)                                                                                                      \
  if (s.chance(rate, 8))                                                                                               \
  {                                                                                                                    \
    St &st = m.m[#n];                                                                                                  \
    Null nl = W<T>::null();                                                                                            \
    unsigned pn = nl == Clears || nl == Ignored ? 3 : 1;                                                               \
    if (s.chance(pn, nl == Clears || nl == Ignored ? 10 : 400))                                                        \
    {                                                                                                                  \
      doc.o.emplace_back(#n, JV::null());                                                                              \
      if (nl == Clears)                                                                                                \
        st.flag = false;                                                                                               \
      else if (nl == Error_)                                                                                           \
        wantError = true;                                                                                              \
      else if (nl == Unclaimed)                                                                                        \
        unclaimed = true;                                                                                              \
      c.nontrivial = true;                                                                                             \
    }                                                                                                                  \
    else                                                                                                               \
    {                                                                                                                  \
      JV v = I<W<T>::Inner>::gen(s, W<T>::full(st));                                                                   \
      doc.o.emplace_back(#n, v);                                                                                       \
      st.data = merged(W<T>::base(st), v);                                                                             \
      st.flag = true;                                                                                                  \
    }                                                                                                                  \
  }                                                                                                                    \
  else if (m.m[#n].flag)                                                                                               \
    c.nontrivial = c.nontrivial || op > 0;
      MEMBERS(PUT)
      if (s.chance(1, 3))
      {
        JV v = JV::arr();
        size_t n = s.size(6);
        for (size_t i = 0; i < n; i++)
          v.a.push_back(nullOrInt(s));
        doc.o.emplace_back("lu", v);
        m.lu = v.a;
      }
      if (s.chance(1, 3))
      {
        JV v = JV::arr();
        size_t n = s.size(6);
        for (size_t i = 0; i < n; i++)
          v.a.push_back(nullOrInt(s));
        doc.o.emplace_back("ln", v);
        m.ln = v.a;
      }
      if (s.chance(1, 3))
      {
        JV v = JV::obj();
        static const char *const keys[] = {"k1", "k2", "k3", ""};
        for (auto k : keys)
          if (s.boolean())
          {
            v.o.emplace_back(k, nullOrInt(s));
            m.mn[k] = v.o.back().second;
          }
        doc.o.emplace_back("mn", v);
      }
      if (s.boolean())
      {
        m.end = int(s.range(0, 99));
        doc.o.emplace_back("end", JV::num(int64_t(m.end)));
      }
      // any order of members
      for (size_t i = doc.o.size(); i > 1; i--)
        if (s.chance(1, 2))
          std::swap(doc.o[i - 1], doc.o[s.draw(i)]);
      std::string t = ref::text(s, doc, false);
      c.identity(t);
      if (c.verbose)
        c.describe((tag + " parse").c_str(), printable(t));
      Exact e(t);
      JS::ParseContext pc(e.data(), e.size());
      JS::Error er = pc.parseTo(x);
      if (unclaimed)
      {
        c.label("leniency: null for string or standard optional");
        return;
      }
      if (wantError)
      {
        PBT_CHECK(er != JS::Error::NoError, tag + ": null accepted for a wrapper that has no null");
        c.label("null refused");
        return;
      }
      PBT_CHECK(er == JS::Error::NoError, tag + ": refused with " + errName(er));
      compare(x, m, tag + " after parse");
      c.label("parse");
      break;
    }
    case 1:
    {
      size_t n = 0, k;
#define COUNT(T, n) +1
      k = s.draw(0 MEMBERS(COUNT));
      bool mv = s.boolean();
#define ASSIGN(T, nm)                                                                                                  \
  if (n++ == k)                                                                                                        \
  {                                                                                                                    \
    JV v = I<W<T>::Inner>::gen(s, true);                                                                               \
    if (c.verbose)                                                                                                     \
      c.describe((tag + " assign " #nm).c_str(), ref::text(v));                                                        \
    c.identity("assign" #nm + ref::text(v));                                                                           \
    W<T>::assign(x.nm, v, mv);                                                                                         \
    m.m[#nm] = St{true, v};                                                                                            \
  }
      MEMBERS(ASSIGN)
      compare(x, m, tag + " after assignment");
      c.label("assign");
      break;
    }
    case 2:
    {
      if (s.boolean())
      {
        S y = std::move(x);
        compare(y, m, tag + " after move construction");
        x = std::move(y);
      }
      else
      { // copies of the copyable wrappers
        S y;
        y.oi = x.oi; y.on = x.on; y.ci = x.ci; y.cs = x.cs; y.cv = x.cv; y.cn = x.cn; y.ni = x.ni; y.ns = x.ns;
        y.ki = x.ki; y.kv = x.kv; y.kn = x.kn; y.ti = x.ti; y.tn = x.tn; y.ln = x.ln; y.mn = x.mn;
        JS::OptionalChecked<std::string> a(x.cs);
        JS::NullableChecked<In> b(x.kn);
        JS::Optional<In> d(x.on);
        JS::Nullable<std::string> e(x.ns);
        x.oi = y.oi; x.on = d; x.ci = y.ci; x.cs = a; x.cv = y.cv; x.cn = y.cn; x.ni = y.ni; x.ns = e;
        x.ki = y.ki; x.kv = y.kv; x.kn = b; x.ti = y.ti; x.tn = y.tn; x.ln = y.ln; x.mn = y.mn;
      }
      compare(x, m, tag + " after copy/move");
      c.label("copy/move");
      c.identity("copy");
      break;
    }
    case 4:
    { // another object in another state takes over
      S y;
      Model my;
      MEMBERS(START2)
      unsigned rate = unsigned(s.draw(8));
      MEMBERS(FILL)
      c.identity("replace");
      if (s.boolean())
      {
        x = std::move(y);
        my.end = 0;
        m = my;
      }
      else
      {
#define COPY(n) x.n = y.n, m.m[#n] = my.m[#n];
        COPY(oi) COPY(on) COPY(ci) COPY(cs) COPY(cv) COPY(cn) COPY(ni) COPY(ns) COPY(ki) COPY(kv) COPY(kn) COPY(ti) COPY(tn)
      }
      compare(x, m, tag + " after taking over another object");
      c.label("replace");
      break;
    }
    default:
    {
      JS::SerializerOptions so(s.boolean() ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
      std::string t = JS::serializeStruct(x, so);
      if (c.verbose)
        c.describe((tag + " serialize").c_str(), printable(t));
      JV got, want = JV::obj();
      std::string err;
      PBT_CHECK(ref::parse(t, got, &err), tag + ": output is not JSON: " + err);
#define OUT(T, n)                                                                                                      \
  {                                                                                                                    \
    const St &st = m.m[#n];                                                                                            \
    int w = W<T>::written(st);                                                                                         \
    if (w)                                                                                                             \
      want.o.emplace_back(#n, w == 2 ? JV::null() : st.data);                                                          \
  }
      MEMBERS(OUT)
      JV a = JV::arr();
      a.a = m.lu;
      want.o.emplace_back("lu", a);
      a.a = m.ln;
      want.o.emplace_back("ln", a);
      JV o = JV::obj();
      for (auto &p : m.mn)
        o.o.emplace_back(p.first, p.second);
      want.o.emplace_back("mn", o);
      want.o.emplace_back("end", JV::num(int64_t(m.end)));
      std::string w;
      PBT_CHECK(ref::equal(got, want, true, &w), tag + ": output differs at " + w + ": " + printable(t) + " expected " + printable(ref::text(want)));
      S y;
      Exact e(t);
      JS::ParseContext pc(e.data(), e.size());
      JS::Error er = pc.parseTo(y);
      PBT_CHECK(er == JS::Error::NoError, tag + ": own output refused with " + errName(er));
      compare(y, m, tag + " after reading back");
      c.label("serialize");
      c.identity("ser");
    }
    }
  }
}
size_t fixed_count() { return 0; }
void run_fixed(size_t, Ctx &) {}
