#define JS_STL_MAP 1
#define JS_STL_UNORDERED_MAP 1
#include <map>
#include "jsutil.h"
#include "numutil.h"
using namespace pbt;
using namespace glue;
typedef ref::JV JV;
const char *const PROP_ID = "P23";
const char *const PROP_RULE =
  "Cases pick one of eight declared enumerations (one name, names that are prefixes or case variants of each other, names with digits and "
  "underscores, 70 names, declarations with irregular spacing and line breaks, in a namespace) or one of three enumerations parsed by value, "
  "and feed a list of texts: a declared name, a near miss (case, prefix, suffix, one character changed, white space, another enumeration's "
  "name), any string, a number in or out of range, or a value of another kind, as a member, array element, map value or optional; then "
  "write every value back. Oracle: the list of names. Non-trivial: a text that is not a declared name but shares its length or its first "
  "characters with one, or a number at a boundary.";
void prop_init() {}
JS_ENUM(Single, OnlyOne)
JS_ENUM(Plain, Red, Green, Blue)
JS_ENUM(Prefixes, A, AB, ABC, a, ab, Abc, ABCD, B)
JS_ENUM(Odd, x1, x_2, y__, Z9_z, _lead, __two, last_)
JS_ENUM(Spacing,   First ,Second,
        Third
        ,   Fourth	,
        Fifth   )
JS_ENUM(Trail, One, Two, Three,)
JS_ENUM(Many, n00, n01, n02, n03, n04, n05, n06, n07, n08, n09, n10, n11, n12, n13, n14, n15, n16, n17, n18, n19, n20, n21, n22, n23, n24, n25,
        n26, n27, n28, n29, n30, n31, n32, n33, n34, n35, n36, n37, n38, n39, n40, n41, n42, n43, n44, n45, n46, n47, n48, n49, n50, n51, n52,
        n53, n54, n55, n56, n57, n58, n59, n60, n61, n62, n63, n64, n65, n66, n67, n68, n69)
namespace ns
{
namespace deep
{
JS_ENUM(Named, Fiat, VW, BMW, Peugeot)
}
} // namespace ns
JS_ENUM_DECLARE_STRING_PARSER(Single)
JS_ENUM_DECLARE_STRING_PARSER(Plain)
JS_ENUM_DECLARE_STRING_PARSER(Prefixes)
JS_ENUM_DECLARE_STRING_PARSER(Odd)
JS_ENUM_DECLARE_STRING_PARSER(Spacing)
JS_ENUM_DECLARE_STRING_PARSER(Trail)
JS_ENUM_DECLARE_STRING_PARSER(Many)
JS_ENUM_NAMESPACE_DECLARE_STRING_PARSER(ns::deep, Named)
enum class ValI : int { A = -5, B = 0, C = 70000 };
enum ValU : uint8_t { UA = 1, UB = 200 };
namespace ns
{
enum class ValL : int64_t { A = INT64_MIN, B = 3, C = INT64_MAX };
}
JS_ENUM_DECLARE_VALUE_PARSER(ValI)
JS_ENUM_DECLARE_VALUE_PARSER(ValU)
JS_ENUM_NAMESPACE_DECLARE_VALUE_PARSER(ns, ValL)

template <typename E>
struct H
{
  int before = 0;
  E e = E(0);
  std::vector<E> v;
  std::map<std::string, E> m;
  JS::NullableChecked<E> o;
  int after = 0;
  JS_OBJ(before, e, v, m, o, after);
};
typedef std::vector<std::string> Names;
static std::string nearMiss(Src &s, const Names &n)
{
  std::string x = s.pick(n);
  switch (s.draw(8))
  {
  case 0:
    x[s.draw(x.size())] ^= 0x20;
    break;
  case 1: x.resize(s.draw(x.size())); break;
  case 2: x += s.boolean() ? s.pick(n) : std::string(1, char('a' + s.draw(26))); break;
  case 3: x = " " + x; break;
  case 4: x += " "; break;
  case 5: x[s.draw(x.size())] = char(33 + s.draw(94)); break;
  case 6: x = x + "," + s.pick(n); break;
  default: x = s.pick(std::vector<std::string>{"Red", "n00", "OnlyOne", "", "0", "1", "A", "null", "First", "lead", "_"}); break;
  }
  return x;
}
// index of the enumerator, -1 must be refused, -2 free
static int expect(const JV &v, const Names &n)
{
  if (v.k == ref::Str)
  {
    for (size_t i = 0; i < n.size(); i++)
      if (n[i] == v.s)
        return int(i);
    return -1;
  }
  if (v.k == ref::Num)
  {
    bool plain = v.s.find_first_of(".eE") == std::string::npos;
    if (!plain)
      return -2;
    if (v.s[0] == '-')
      return strtod(v.s.c_str(), nullptr) == 0 ? -2 : -1;
    if (v.s.size() > 6)
      return -1;
    size_t k = strtoul(v.s.c_str(), nullptr, 10);
    return k < n.size() ? int(k) : -1;
  }
  return -1;
}
static JV genText(Src &s, const Names &n, Ctx &c)
{
  switch (s.weighted({6, 4, 1, 3, 1}))
  {
  case 0: return JV::str(s.pick(n));
  case 1: c.nontrivial = true; return JV::str(nearMiss(s, n));
  case 2: return JV::str(ref::genString(s, 20));
  case 3:
  {
    c.nontrivial = true;
    switch (s.draw(7))
    {
    case 0: return JV::num(int64_t(n.size()));
    case 1: return JV::num(int64_t(n.size()) - 1);
    case 2: return JV::num(int64_t(-1 - int64_t(s.draw(3))));
    case 3: return JV::num(std::string(s.pick(std::vector<std::string>{"4294967296", "4294967297", "256", "65536", "18446744073709551616", "18446744073709551617", "2147483648", "9223372036854775808"})));
    case 4: return JV::num(ref::genNumber(s));
    default: return JV::num(int64_t(s.draw(n.size() + 1)));
    }
  }
  default:
    switch (s.draw(4))
    {
    case 0: return JV::null();
    case 1: return JV::boolean(s.boolean());
    case 2: return JV::arr();
    default: return JV::obj();
    }
  }
}
template <typename E>
static void named(const char *tn, const Names &n, Src &s, Ctx &c)
{
  c.label(tn);
  c.identity(tn);
  // reading
  JV v = genText(s, n, c);
  size_t place = s.draw(4);
  std::string val = v.k == ref::Str ? "\"" + ref::escape(v.s) + "\"" : ref::text(v);
  std::string in = place == 0 ? "\"e\":" + val : place == 1 ? "\"v\":[" + val + "]" : place == 2 ? "\"m\":{\"k\":" + val + "}" : "\"o\":" + val;
  std::string t = "{\"before\":1," + in + " ,\"after\":2}";
  c.identity(t);
  if (c.verbose)
    c.describe("parse", std::string(tn) + " from " + printable(t));
  int want = expect(v, n);
  bool isnull = place == 3 && v.k == ref::Null;
  H<E> h;
  Exact e(t);
  JS::ParseContext pc(e.data(), e.size());
  JS::Error er = pc.parseTo(h);
  if (want >= 0 || isnull)
  {
    PBT_CHECK(er == JS::Error::NoError, std::string(tn) + ": refused with " + errName(er));
    PBT_CHECK(h.before == 1 && h.after == 2, "members around the enumeration");
    if (!isnull)
    {
      E got = place == 0 ? h.e : place == 1 ? h.v.at(0) : place == 2 ? h.m.at("k") : h.o.data;
      PBT_CHECK(int(got) == want, std::string(tn) + ": read as enumerator " + std::to_string(int(got)) + " instead of " + std::to_string(want));
    }
  }
  else if (want == -1)
    PBT_CHECK(er != JS::Error::NoError, std::string(tn) + ": accepted");
  else if (er == JS::Error::NoError)
  {
    E got = place == 0 ? h.e : place == 1 ? h.v.at(0) : place == 2 ? h.m.at("k") : h.o.data;
    PBT_CHECK(int(got) >= 0 && size_t(got) < n.size(), std::string(tn) + ": read as a value that is no enumerator");
  }
  // writing
  H<E> w;
  size_t k = s.draw(n.size());
  w.e = E(k);
  size_t cnt = s.size(5);
  std::vector<size_t> ks;
  for (size_t i = 0; i < cnt; i++)
  {
    ks.push_back(s.draw(n.size()));
    w.v.push_back(E(ks.back()));
  }
  w.m["k"] = E(k);
  w.o.data = E(k);
  w.o.null = false;
  std::string out = JS::serializeStruct(w, JS::SerializerOptions(s.boolean() ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty));
  if (c.verbose)
    c.describe("written", printable(out));
  JV g;
  PBT_CHECK(ref::parse(out, g), "the output is not JSON: " + printable(out));
  PBT_CHECK(g.find("e") && g.find("e")->k == ref::Str && g.find("e")->s == n[k], std::string(tn) + ": enumerator '" + n[k] + "' is written as " + printable(out));
  PBT_CHECK(g.find("m") && g.find("m")->find("k") && g.find("m")->find("k")->s == n[k], std::string(tn) + ": map value");
  PBT_CHECK(g.find("o") && g.find("o")->s == n[k], std::string(tn) + ": optional");
  const JV *a = g.find("v");
  PBT_CHECK(a && a->a.size() == cnt, std::string(tn) + ": array");
  for (size_t i = 0; i < cnt; i++)
    PBT_CHECK(a->a[i].k == ref::Str && a->a[i].s == n[ks[i]], std::string(tn) + ": array element '" + n[ks[i]] + "'");
  H<E> b;
  JS::ParseContext p2(out.data(), out.size());
  PBT_CHECK(p2.parseTo(b) == JS::Error::NoError && b.e == w.e && b.v == w.v && b.m == w.m && !b.o.null && b.o.data == w.o.data, std::string(tn) + ": reading the output back");
}
template <typename E>
static void valued(const char *tn, std::vector<E> vals, Src &s, Ctx &c)
{
  c.label(tn);
  typedef typename std::underlying_type<E>::type U;
  H<E> w;
  w.e = s.pick(vals);
  size_t cnt = s.size(4);
  for (size_t i = 0; i < cnt; i++)
    w.v.push_back(s.pick(vals));
  w.m["k"] = s.pick(vals);
  w.o.data = s.pick(vals);
  w.o.null = false;
  std::string out = JS::serializeStruct(w);
  c.identity(out);
  if (c.verbose)
    c.describe("written", printable(out));
  JV g;
  PBT_CHECK(ref::parse(out, g), "the output is not JSON: " + printable(out));
  PBT_CHECK(g.find("e") && g.find("e")->k == ref::Num && g.find("e")->s == std::to_string((long long)U(w.e)), std::string(tn) + ": written as " + printable(out));
  H<E> b;
  JS::ParseContext p2(out.data(), out.size());
  PBT_CHECK(p2.parseTo(b) == JS::Error::NoError && b.e == w.e && b.v == w.v && b.m == w.m && b.o.data == w.o.data, std::string(tn) + ": reading the output back");
  std::string bad = s.pick(std::vector<std::string>{"\"A\"", "null", "[]", "{}", "\"\"", "\"Red\""});
  std::string t = "{\"e\":" + bad + "}";
  JS::ParseContext p3(t.data(), t.size());
  PBT_CHECK(p3.parseTo(b) != JS::Error::NoError, std::string(tn) + ": " + t + " is accepted");
}
void run_case(Src &s, Ctx &c)
{
  static Names many;
  if (many.empty())
    for (int i = 0; i < 70; i++)
      many.push_back(fmt("n%02d", i));
  switch (s.draw(11))
  {
  case 0: return named<Single>("Single", {"OnlyOne"}, s, c);
  case 1: return named<Plain>("Plain", {"Red", "Green", "Blue"}, s, c);
  case 2: return named<Prefixes>("Prefixes", {"A", "AB", "ABC", "a", "ab", "Abc", "ABCD", "B"}, s, c);
  case 3: return named<Odd>("Odd", {"x1", "x_2", "y__", "Z9_z", "_lead", "__two", "last_"}, s, c);
  case 4: return named<Spacing>("Spacing", {"First", "Second", "Third", "Fourth", "Fifth"}, s, c);
  case 5: return named<Trail>("Trail", {"One", "Two", "Three"}, s, c);
  case 6: return named<Many>("Many", many, s, c);
  case 7: return named<ns::deep::Named>("Named", {"Fiat", "VW", "BMW", "Peugeot"}, s, c);
  case 8: return valued<ValI>("ValI", {ValI::A, ValI::B, ValI::C}, s, c);
  case 9: return valued<ValU>("ValU", {UA, UB}, s, c);
  default: return valued<ns::ValL>("ValL", {ns::ValL::A, ns::ValL::B, ns::ValL::C}, s, c);
  }
}
// every name of every enumeration, both ways
template <typename E>
static void all(const Names &n)
{
  for (size_t i = 0; i < n.size(); i++)
  {
    std::vector<E> v{E(i)};
    std::string o = JS::serializeStruct(v, JS::SerializerOptions(JS::SerializerOptions::Compact));
    PBT_CHECK(o == "[\"" + n[i] + "\"]", "enumerator '" + n[i] + "' is written as " + o);
    std::string t = "[\"" + n[i] + "\"," + std::to_string(i) + "]";
    std::vector<E> b;
    JS::ParseContext pc(t.data(), t.size());
    PBT_CHECK(pc.parseTo(b) == JS::Error::NoError && b.size() == 2 && b[0] == E(i) && b[1] == E(i), t + " is read differently");
  }
}
size_t fixed_count() { return 8; }
void run_fixed(size_t i, Ctx &c)
{
  Names many;
  for (int k = 0; k < 70; k++)
    many.push_back(fmt("n%02d", k));
  switch (i)
  {
  case 0: return all<Single>({"OnlyOne"});
  case 1: return all<Plain>({"Red", "Green", "Blue"});
  case 2: return all<Prefixes>({"A", "AB", "ABC", "a", "ab", "Abc", "ABCD", "B"});
  case 3: return all<Odd>({"x1", "x_2", "y__", "Z9_z", "_lead", "__two", "last_"});
  case 4: return all<Spacing>({"First", "Second", "Third", "Fourth", "Fifth"});
  case 5: return all<Trail>({"One", "Two", "Three"});
  case 6: return all<Many>(many);
  default: return all<ns::deep::Named>({"Fiat", "VW", "BMW", "Peugeot"});
  }
}
