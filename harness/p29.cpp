#define JS_STD_OPTIONAL
#include <optional>
#include <memory>
#include "jsutil.h"
#include "feed.h"
using namespace pbt;
using namespace glue;
typedef ref::JV JV;
const char *const PROP_ID = "P29";
const char *const PROP_RULE =
  "Cases are object documents (all members, some, aliases, unknown ones, repeated order, wrong kinds) parsed into, and written from, the "
  "same struct declared with every object macro (short, long, external, with bases, named, aliased; 1, 2, 8 and 70 members), and request "
  "objects run against the same class declared with every function macro (short, long, external, with bases, without own functions, named, "
  "aliased). Oracle: one model of the struct (name and aliases to slot) for the values, the written text and both member lists, and one "
  "model of the calls; all forms have to agree with it. Non-trivial: at least two members or calls took effect.";
void prop_init() {}

// --- objects --------------------------------------------------------------------------------------------------------
// Every form declares: own members a (int, alias al), b (string), c (vector<int>, required), o (Optional<int>), base B1 { p, q }, base B2 { r }.
#define OWN                                                                                                            \
  int a = -1;                                                                                                          \
  std::string b = "unset";                                                                                             \
  std::vector<int> c = {-1};                                                                                           \
  JS::Optional<int> o = -1;
namespace f0
{
struct B1 { int p = -1; std::string q = "unset"; JS_OBJ(p, q); };
struct B2 { bool r = false; JS_OBJ(r); };
struct S : B1, B2 { OWN JS_OBJ_SUPER(JS_SUPER(B1, B2), a, b, c, o); };
} // namespace f0
namespace f1
{
struct B1 { int p = -1; std::string q = "unset"; JS_OBJECT(JS_MEMBER(p), JS_MEMBER(q)); };
struct B2 { bool r = false; JS_OBJECT(JS_MEMBER(r)); };
struct S : B1, B2
{
  OWN JS_OBJECT_WITH_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(B1), JS_SUPER_CLASS(B2)), JS_MEMBER(a), JS_MEMBER(b), JS_MEMBER(c), JS_MEMBER(o));
};
} // namespace f1
namespace f2
{
struct B1 { int p = -1; std::string q = "unset"; };
struct B2 { bool r = false; };
struct S : B1, B2 { OWN };
} // namespace f2
JS_OBJ_EXT(f2::B1, p, q)
JS_OBJ_EXT(f2::B2, r)
JS_OBJ_EXT_SUPER(f2::S, JS_SUPER(f2::B1, f2::B2), a, b, c, o)
namespace f3
{
struct B1 { int p = -1; std::string q = "unset"; };
struct B2 { bool r = false; };
struct S : B1, B2 { OWN };
} // namespace f3
JS_OBJECT_EXTERNAL(f3::B1, JS_MEMBER(p), JS_MEMBER(q))
JS_OBJECT_EXTERNAL(f3::B2, JS_MEMBER(r))
JS_OBJECT_EXTERNAL_WITH_SUPER(f3::S, JS_SUPER_CLASSES(JS_SUPER_CLASS(f3::B1), JS_SUPER_CLASS(f3::B2)), JS_MEMBER(a), JS_MEMBER(b), JS_MEMBER(c),
                              JS_MEMBER(o))
namespace f4
{
// other C++ names
struct B1
{
  int pp = -1;
  std::string qq = "unset";
  JS_OBJECT(JS_MEMBER_WITH_NAME(pp, "p"), JS_MEMBER_WITH_NAME(qq, "q"));
};
struct B2 { bool q = false; JS_OBJECT(JS_MEMBER_WITH_NAME(q, "r")); };
struct S : B1, B2
{
  int b = -1;
  std::string a = "unset";
  std::vector<int> p = {-1};
  JS::Optional<int> al = -1;
  JS_OBJECT_WITH_SUPER(JS_SUPER(B1, B2), JS_MEMBER_WITH_NAME(b, "a"), JS_MEMBER_WITH_NAME(a, "b"), JS_MEMBER_WITH_NAME(p, "c"),
                       JS_MEMBER_WITH_NAME(al, "o"));
};
} // namespace f4
namespace f5
{
// a base that is external, own declaration internal
struct B1 { int p = -1; std::string q = "unset"; };
struct B2 { bool r = false; JS_OBJ(r); };
} // namespace f5
JS_OBJ_EXT(f5::B1, p, q)
namespace f5
{
struct S : B1, B2 { OWN JS_OBJ_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(B1), JS_SUPER_CLASS(B2)), a, b, c, o); };
} // namespace f5
// with aliases
namespace g0
{
struct B1 { int p = -1; std::string q = "unset"; JS_OBJECT(JS_MEMBER_ALIASES(p, "pal"), JS_MEMBER(q)); };
struct B2 { bool r = false; JS_OBJECT(JS_MEMBER_ALIASES(r, "ral", "ral2", "r 3")); };
struct S : B1, B2
{
  OWN JS_OBJECT_WITH_SUPER(JS_SUPER(B1, B2), JS_MEMBER_ALIASES(a, "al", "al2"), JS_MEMBER(b), JS_MEMBER_ALIASES(c, "cal"), JS_MEMBER(o));
};
} // namespace g0
namespace g1
{
struct B1
{
  int xp = -1;
  std::string q = "unset";
};
struct B2 { bool xr = false; };
struct S : B1, B2
{
  int xa = -1;
  std::string b = "unset";
  std::vector<int> xc = {-1};
  JS::Optional<int> o = -1;
};
} // namespace g1
JS_OBJECT_EXTERNAL(g1::B1, JS_MEMBER_WITH_NAME_AND_ALIASES(xp, "p", "pal"), JS_MEMBER(q))
JS_OBJECT_EXTERNAL(g1::B2, JS_MEMBER_WITH_NAME_AND_ALIASES(xr, "r", "ral", "ral2", "r 3"))
JS_OBJECT_EXTERNAL_WITH_SUPER(g1::S, JS_SUPER(g1::B1, g1::B2), JS_MEMBER_WITH_NAME_AND_ALIASES(xa, "a", "al", "al2"), JS_MEMBER(b),
                              JS_MEMBER_WITH_NAME_AND_ALIASES(xc, "c", "cal"), JS_MEMBER(o))
// one member, many members
#define TEN(X, k) X(k##0) X(k##1) X(k##2) X(k##3) X(k##4) X(k##5) X(k##6) X(k##7) X(k##8) X(k##9)
#define DECL(n) int n = -1;
#define LST(k) k##0, k##1, k##2, k##3, k##4, k##5, k##6, k##7, k##8, k##9
#define MEM(k)                                                                                                         \
  JS_MEMBER(k##0), JS_MEMBER(k##1), JS_MEMBER(k##2), JS_MEMBER(k##3), JS_MEMBER(k##4), JS_MEMBER(k##5), JS_MEMBER(k##6), JS_MEMBER(k##7),   \
    JS_MEMBER(k##8), JS_MEMBER(k##9)
#define ALLDECL TEN(DECL, m0) TEN(DECL, m1) TEN(DECL, m2) TEN(DECL, m3) TEN(DECL, m4) TEN(DECL, m5) TEN(DECL, m6)
namespace h0
{
struct S
{
  ALLDECL
  JS_OBJ(m00, m01, m02, m03, m04, m05, m06, m07, m08, m09, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25, m26,
         m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47, m48, m49, m50, m51, m52, m53,
         m54, m55, m56, m57, m58, m59, m60, m61, m62, m63, m64, m65, m66, m67, m68, m69);
};
} // namespace h0
namespace h1
{
struct S { ALLDECL };
} // namespace h1
JS_OBJECT_EXTERNAL(h1::S, MEM(m0), MEM(m1), MEM(m2), MEM(m3), MEM(m4), MEM(m5), MEM(m6))
namespace h2
{
// the same in a chain of bases: m60.. own, the rest in six bases, one below the other
struct L0 { TEN(DECL, m0) JS_OBJ(m00, m01, m02, m03, m04, m05, m06, m07, m08, m09); };
struct L1 : L0 { TEN(DECL, m1) JS_OBJ_SUPER(JS_SUPER(L0), m10, m11, m12, m13, m14, m15, m16, m17, m18, m19); };
struct L2 : L1 { TEN(DECL, m2) JS_OBJ_SUPER(JS_SUPER(L1), m20, m21, m22, m23, m24, m25, m26, m27, m28, m29); };
struct L3 : L2 { TEN(DECL, m3) JS_OBJ_SUPER(JS_SUPER(L2), m30, m31, m32, m33, m34, m35, m36, m37, m38, m39); };
struct L4 : L3 { TEN(DECL, m4) JS_OBJ_SUPER(JS_SUPER(L3), m40, m41, m42, m43, m44, m45, m46, m47, m48, m49); };
struct L5 : L4 { TEN(DECL, m5) JS_OBJ_SUPER(JS_SUPER(L4), m50, m51, m52, m53, m54, m55, m56, m57, m58, m59); };
struct S : L5 { TEN(DECL, m6) JS_OBJ_SUPER(JS_SUPER(L5), m60, m61, m62, m63, m64, m65, m66, m67, m68, m69); };
} // namespace h2
namespace h3
{
// the same in six bases next to each other, three of them in two intermediate classes
struct L0 { TEN(DECL, m0) JS_OBJ(m00, m01, m02, m03, m04, m05, m06, m07, m08, m09); };
struct L1 { TEN(DECL, m1) JS_OBJ(m10, m11, m12, m13, m14, m15, m16, m17, m18, m19); };
struct L2 { TEN(DECL, m2) JS_OBJ(m20, m21, m22, m23, m24, m25, m26, m27, m28, m29); };
struct L3 : L0, L1 { TEN(DECL, m3) JS_OBJ_SUPER(JS_SUPER(L0, L1), m30, m31, m32, m33, m34, m35, m36, m37, m38, m39); };
struct L4 : L2 { TEN(DECL, m4) JS_OBJ_SUPER(JS_SUPER(L2), m40, m41, m42, m43, m44, m45, m46, m47, m48, m49); };
struct L5 { TEN(DECL, m5) JS_OBJ(m50, m51, m52, m53, m54, m55, m56, m57, m58, m59); };
struct S : L3, L4, L5 { TEN(DECL, m6) JS_OBJ_SUPER(JS_SUPER(L3, L4, L5), m60, m61, m62, m63, m64, m65, m66, m67, m68, m69); };
} // namespace h3

static std::string bare(std::string n)
{
  // the name of a base is the spelling in the declaration, which the external forms have to qualify
  if (n.size() > 4 && islower(n[0]) && n[2] == ':' && n[3] == ':')
    n = n.substr(4);
  return n;
}
struct Res
{
  JS::Error err;
  std::multiset<std::string> missing, unassigned;
  std::string text;
};
template <typename S>
static Res run(const std::string &doc, unsigned strict, const JS::SerializerOptions &o)
{
  Exact e(doc);
  S x;
  JS::ParseContext pc(e.data(), e.size());
  pc.allow_missing_members = !(strict & 1);
  pc.allow_unasigned_required_members = !(strict & 2);
  Res r;
  r.err = pc.parseTo(x);
  for (auto &m : pc.missing_members)
    r.missing.insert(m);
  for (auto &m : pc.unassigned_required_members)
    r.unassigned.insert(bare(m));
  r.text = JS::serializeStruct(x, o);
  return r;
}
static std::string join(const std::multiset<std::string> &x)
{
  std::string o;
  for (auto &m : x)
    o += m + " ";
  return o;
}
struct Slot
{
  const char *name;
  std::vector<std::string> aliases; // in the aliased forms
  const char *super;
  bool required;
  JV def;
};
static JV ints(std::initializer_list<int> l)
{
  JV v = JV::arr();
  for (int i : l)
    v.a.push_back(JV::num(int64_t(i)));
  return v;
}
// declaration order; written: own ones, then the last base first
static const std::vector<Slot> &slots()
{
  static const std::vector<Slot> s = {{"a", {"al", "al2"}, "", true, JV::num(int64_t(-1))}, {"b", {}, "", true, JV::str("unset")},
                                      {"c", {"cal"}, "", true, ints({-1})},                {"o", {}, "", false, JV::num(int64_t(-1))},
                                      {"p", {"pal"}, "B1", true, JV::num(int64_t(-1))},     {"q", {}, "B1", true, JV::str("unset")},
                                      {"r", {"ral", "ral2", "r 3"}, "B2", true, JV::boolean(false)}};
  return s;
}
static JV genFor(Src &s, char n, bool &bad)
{
  bad = s.chance(1, 25) && n != 'b' && n != 'q';
  if (bad)
    return JV::obj();
  switch (n)
  {
  case 'b':
  case 'q': return JV::str(ref::genString(s, 12));
  case 'c':
  {
    JV v = JV::arr();
    size_t k = s.draw(4);
    for (size_t i = 0; i < k; i++)
      v.a.push_back(JV::num(int64_t(s.range(0, 99))));
    return v;
  }
  case 'r': return JV::boolean(s.boolean());
  default: return JV::num(int64_t(s.range(0, 99999)));
  }
}
static JV anything(Src &s)
{
  switch (s.draw(4))
  {
  case 0: return JV::null();
  case 1: return JV::num(int64_t(7));
  case 2: return JV::str(ref::genString(s, 8));
  default:
  {
    JV v = JV::obj();
    v.o.emplace_back("a", ints({1, 2}));
    return v;
  }
  }
}
static JS::SerializerOptions opts(Src &s)
{
  return JS::SerializerOptions(s.boolean() ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
}
static void judge(const Res &r, const char *form, bool bad, const std::multiset<std::string> &mi, const std::multiset<std::string> &un, unsigned strict,
                  const JV &want)
{
  std::string f = std::string("form ") + form + ": ";
  if (bad)
  {
    PBT_CHECK(r.err != JS::Error::NoError, f + "a member of the wrong kind is accepted");
    return;
  }
  JS::Error we = JS::Error::NoError;
  if ((strict & 1) && mi.size())
    we = JS::Error::MissingPropertyMember;
  else if ((strict & 2) && un.size())
    we = JS::Error::UnassignedRequiredMember;
  if (we == JS::Error::MissingPropertyMember)
  {
    PBT_CHECK(r.err != JS::Error::NoError, f + "an unknown member is accepted");
    return;
  }
  PBT_CHECK(r.err == we, f + "gives " + std::to_string(int(r.err)) + ", expected " + std::to_string(int(we)));
  PBT_CHECK(r.missing == mi, f + "unknown members " + join(r.missing) + ", expected " + join(mi));
  PBT_CHECK(r.unassigned == un, f + "unassigned members " + join(r.unassigned) + ", expected " + join(un));
  JV got;
  std::string err, where;
  PBT_CHECK(ref::parse(r.text, got, &err), f + "written as " + printable(r.text));
  PBT_CHECK(ref::equal(got, want, true, &where), f + "holds " + printable(r.text) + ", expected " + printable(ref::text(want)) + " at " + where);
}
static void objects(Src &s, Ctx &c)
{
  bool aliased = s.boolean();
  JV doc = JV::obj();
  std::multiset<std::string> mi, un;
  std::map<std::string, JV> got;
  std::vector<std::pair<std::string, JV>> mem;
  bool bad = false;
  for (auto &x : slots())
  {
    if (s.chance(1, 4))
      continue;
    std::string n = x.name;
    if (x.aliases.size() && s.boolean())
      n = x.aliases[s.draw(x.aliases.size())];
    bool known = n == x.name || aliased, b = false;
    JV v = genFor(s, x.name[0], b);
    doc.o.emplace_back(n, v);
    if (known)
    {
      got[x.name] = v;
      bad |= b;
    }
    else
      mi.insert(n);
  }
  size_t extra = s.weighted({3, 2, 1});
  static const std::vector<const char *> OTHER = {"A", "aa", "", "alx", "B1::p", "p ", "r3", "o_", "xa", "pp"};
  for (size_t i = 0; i < extra; i++)
  {
    std::string n = s.pick(OTHER);
    if (mi.count(n))
      continue;
    doc.o.emplace_back(n, anything(s));
    mi.insert(n);
  }
  for (size_t i = doc.o.size(); i > 1; i--)
    std::swap(doc.o[i - 1], doc.o[s.draw(i)]);
  JV want = JV::obj();
  std::vector<size_t> order = {0, 1, 2, 3, 6, 4, 5};
  for (size_t i : order)
  {
    auto &x = slots()[i];
    auto it = got.find(x.name);
    want.o.emplace_back(x.name, it == got.end() ? x.def : it->second);
    if (it == got.end() && x.required)
      un.insert((*x.super ? std::string(x.super) + "::" : std::string()) + x.name);
  }
  unsigned strict = s.boolean() ? unsigned(s.draw(4)) : 0;
  std::string t = ref::text(s, doc, false);
  c.identity(fmt("%d %u ", int(aliased), strict) + t);
  if (c.verbose)
    c.describe("document", fmt("%s strict %u ", aliased ? "aliased forms" : "plain forms", strict) + printable(t));
  c.label(bad ? "wrong kind" : aliased ? "aliased" : "plain");
  c.nontrivial = got.size() >= 2;
  JS::SerializerOptions o = opts(s);
#define F(ns, form) judge(run<ns::S>(t, strict, o), form, bad, mi, un, strict, want);
  if (aliased)
  {
    F(g0, "members with aliases")
    F(g1, "external, names and aliases")
  }
  else
  {
    F(f0, "JS_OBJ_SUPER")
    F(f1, "JS_OBJECT_WITH_SUPER")
    F(f2, "JS_OBJ_EXT_SUPER")
    F(f3, "JS_OBJECT_EXTERNAL_WITH_SUPER")
    F(f4, "named")
    F(f5, "mixed")
  }
}
static void large(Src &s, Ctx &c)
{
  JV doc = JV::obj();
  std::map<int, int64_t> val;
  std::multiset<std::string> mi;
  unsigned p = unsigned(1 + s.draw(8));
  for (int i = 0; i < 70; i++)
    if (s.chance(p, 8))
    {
      int64_t v = int64_t(s.range(0, 9999));
      val[i] = v;
      doc.o.emplace_back(fmt("m%02d", i), JV::num(v));
    }
  if (s.chance(1, 3))
  {
    std::string n = s.pick(std::vector<const char *>{"m70", "m0", "m000", "m7", "M00", "m", "m-1"});
    doc.o.emplace_back(n, anything(s));
    mi.insert(n);
  }
  for (size_t i = doc.o.size(); i > 1; i--)
    std::swap(doc.o[i - 1], doc.o[s.draw(i)]);
  std::string t = ref::text(s, doc, false);
  c.identity(t);
  unsigned strict = s.boolean() ? unsigned(s.draw(4)) : 0;
  if (c.verbose)
    c.describe("document", fmt("70 members, strict %u ", strict) + printable(t));
  c.nontrivial = val.size() >= 2;
  c.label("70 members");
  JS::SerializerOptions o = opts(s);
  // the classes of h2 and h3, in the order in which they are written
  auto form = [&](const std::vector<std::pair<int, const char *>> &tens, const char *name, const Res &r) {
    JV want = JV::obj();
    std::multiset<std::string> un;
    for (auto &d : tens)
      for (int i = d.first * 10; i < d.first * 10 + 10; i++)
      {
        bool has = val.count(i);
        std::string n = fmt("m%02d", i);
        want.o.emplace_back(n, JV::num(has ? val[i] : int64_t(-1)));
        if (!has)
          un.insert((*d.second ? std::string(d.second) + "::" : std::string()) + n);
      }
    judge(r, name, false, mi, un, strict, want);
  };
  form({{0, ""}, {1, ""}, {2, ""}, {3, ""}, {4, ""}, {5, ""}, {6, ""}}, "JS_OBJ of 70", run<h0::S>(t, strict, o));
  form({{0, ""}, {1, ""}, {2, ""}, {3, ""}, {4, ""}, {5, ""}, {6, ""}}, "JS_OBJECT_EXTERNAL of 70", run<h1::S>(t, strict, o));
  form({{6, ""}, {5, "L5"}, {4, "L4"}, {3, "L3"}, {2, "L2"}, {1, "L1"}, {0, "L0"}}, "chain of bases", run<h2::S>(t, strict, o));
  form({{6, ""}, {5, "L5"}, {4, "L4"}, {2, "L2"}, {3, "L3"}, {1, "L1"}, {0, "L0"}}, "tree of bases", run<h3::S>(t, strict, o));
}

// --- functions ------------------------------------------------------------------------------------------------------
static std::vector<std::string> *LOG;
static void log(const char *n, int v) { LOG->push_back(std::string(n) + "(" + std::to_string(v) + ")"); }
#define BASE1                                                                                                          \
  int p(int v) { log("p", v); return v + 1; }                                                                          \
  void q(int v) { log("q", v); }
#define BASE2                                                                                                          \
  int r(int v) { log("r", v); return v + 2; }
#define FOWN                                                                                                           \
  int a(int v) { log("a", v); return v + 3; }                                                                          \
  void b(int v) { log("b", v); }                                                                                       \
  int c(int v) { log("c", v); return v + 4; }
namespace k0
{
struct B1 { BASE1 JS_FUNC_OBJ(p, q); };
struct B2 { BASE2 JS_FUNC_OBJ(r); };
struct S : B1, B2 { FOWN JS_FUNC_OBJ_SUPER(JS_SUPER(B1, B2), a, b, c); };
} // namespace k0
namespace k1
{
struct B1 { BASE1 JS_FUNCTION_CONTAINER(JS_FUNCTION(p), JS_FUNCTION(q)); };
struct B2 { BASE2 JS_FUNCTION_CONTAINER(JS_FUNCTION(r)); };
struct S : B1, B2
{
  FOWN JS_FUNCTION_CONTAINER_WITH_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(B1), JS_SUPER_CLASS(B2)), JS_FUNCTION(a), JS_FUNCTION(b), JS_FUNCTION(c));
};
} // namespace k1
namespace k2
{
struct B1 { BASE1 };
struct B2 { BASE2 };
struct S : B1, B2 { FOWN };
} // namespace k2
JS_FUNC_OBJ_EXTERNAL(k2::B1, p, q)
JS_FUNC_OBJ_EXTERNAL(k2::B2, r)
JS_FUNC_OBJ_EXTERNAL_SUPER(k2::S, JS_SUPER(k2::B1, k2::B2), a, b, c)
namespace k3
{
struct B1 { BASE1 };
struct B2 { BASE2 };
struct S : B1, B2 { FOWN };
} // namespace k3
JS_FUNCTION_CONTAINER_EXTERNAL(k3::B1, JS_FUNCTION(p), JS_FUNCTION(q))
JS_FUNCTION_CONTAINER_EXTERNAL(k3::B2, JS_FUNCTION(r))
JS_FUNCTION_CONTAINER_EXTERNAL_WITH_SUPER(k3::S, JS_SUPER(k3::B1, k3::B2), JS_FUNCTION(a), JS_FUNCTION(b), JS_FUNCTION(c))
namespace k4
{
// everything in bases
struct B1 { BASE1 JS_FUNC_OBJ(p, q); };
struct B2 { BASE2 FOWN JS_FUNC_OBJ(r, a, b, c); };
struct S : B1, B2 { JS_FUNCTION_CONTAINER_WITH_SUPER_WITHOUT_MEMBERS(JS_SUPER(B1, B2)); };
} // namespace k4
namespace k5
{
struct B1 { BASE1 FOWN JS_FUNC_OBJ(p, q, a, b, c); };
struct B2 { BASE2 JS_FUNC_OBJ(r); };
struct S : B1, B2 {};
} // namespace k5
JS_FUNCTION_CONTAINER_EXTERNAL_WITH_SUPER_WITHOUT_MEMBERS(k5::S, JS_SUPER(k5::B1, k5::B2))
namespace k6
{
struct B1 { int xp(int v) { log("p", v); return v + 1; } void q(int v) { log("q", v); } JS_FUNCTION_CONTAINER(JS_FUNCTION_WITH_NAME(xp, "p"), JS_FUNCTION(q)); };
struct B2 { int b(int v) { log("r", v); return v + 2; } JS_FUNCTION_CONTAINER(JS_FUNCTION_WITH_NAME(b, "r")); };
struct S : B1, B2
{
  int c(int v) { log("a", v); return v + 3; }
  void a(int v) { log("b", v); }
  int b(int v) { log("c", v); return v + 4; }
  JS_FUNCTION_CONTAINER_WITH_SUPER(JS_SUPER(B1, B2), JS_FUNCTION_WITH_NAME(c, "a"), JS_FUNCTION_WITH_NAME(a, "b"), JS_FUNCTION_WITH_NAME(b, "c"));
};
} // namespace k6
namespace l0
{
struct B1 { BASE1 JS_FUNCTION_CONTAINER(JS_FUNCTION_ALIASES(p, "pal"), JS_FUNCTION(q)); };
struct B2 { BASE2 JS_FUNCTION_CONTAINER(JS_FUNCTION_ALIASES(r, "ral", "ral2")); };
struct S : B1, B2
{
  FOWN JS_FUNCTION_CONTAINER_WITH_SUPER(JS_SUPER(B1, B2), JS_FUNCTION_ALIASES(a, "al", "al2", "al3"), JS_FUNCTION(b), JS_FUNCTION(c));
};
} // namespace l0
namespace l1
{
struct B1 { BASE1 };
struct B2 { int x(int v) { log("r", v); return v + 2; } };
struct S : B1, B2 { FOWN };
} // namespace l1
JS_FUNCTION_CONTAINER_EXTERNAL(l1::B1, JS_FUNCTION_WITH_NAME_ALIASES(p, "p", "pal"), JS_FUNCTION(q))
JS_FUNCTION_CONTAINER_EXTERNAL(l1::B2, JS_FUNCTION_WITH_NAME_ALIASES(x, "r", "ral", "ral2"))
JS_FUNCTION_CONTAINER_EXTERNAL_WITH_SUPER(l1::S, JS_SUPER(l1::B1, l1::B2), JS_FUNCTION_WITH_NAME_ALIASES(a, "a", "al", "al2", "al3"), JS_FUNCTION(b), JS_FUNCTION(c))

struct FRes
{
  std::vector<std::string> log;
  std::string out;
  std::vector<std::pair<std::string, bool>> report;
};
template <typename S>
static FRes call(const std::string &t)
{
  Exact e(t);
  FRes r;
  LOG = &r.log;
  S obj;
  JS::DefaultCallFunctionContext x(e.data(), e.size(), r.out);
  (void)x.callFunctions(obj);
  for (auto &l : x.execution_list)
    r.report.emplace_back(l.name, l.error == JS::Error::NoError);
  return r;
}
static void functions(Src &s, Ctx &c)
{
  bool aliased = s.boolean();
  static const std::vector<const char *> NAMES = {"a", "b", "c", "p", "q", "r", "al", "al2", "al3", "pal", "ral", "ral2", "zz", "", "A", "bb"};
  size_t n = s.size(7);
  JV doc = JV::obj(), want = JV::arr();
  std::vector<std::string> wl;
  std::vector<std::pair<std::string, bool>> wr;
  for (size_t i = 0; i < n; i++)
  {
    std::string nm = s.pick(NAMES), id = nm;
    if (aliased)
    {
      if (nm == "al" || nm == "al2" || nm == "al3") id = "a";
      else if (nm == "pal") id = "p";
      else if (nm == "ral" || nm == "ral2") id = "r";
    }
    bool known = id.size() == 1 && strchr("abcpqr", id[0]);
    bool bad = s.chance(1, 10);
    int v = int(s.range(0, 1000));
    doc.o.emplace_back(nm, bad ? JV::arr() : JV::num(int64_t(v)));
    wr.emplace_back(nm, known && !bad);
    if (!known || bad)
      continue;
    wl.push_back(id + "(" + std::to_string(v) + ")");
    int add = id == "p" ? 1 : id == "r" ? 2 : id == "a" ? 3 : id == "c" ? 4 : 0;
    if (add)
      want.a.push_back(JV::num(int64_t(v + add)));
  }
  std::string t = ref::text(s, doc, false);
  c.identity(t + (aliased ? "A" : ""));
  if (c.verbose)
    c.describe("request", (aliased ? "aliased forms " : "plain forms ") + printable(t));
  c.nontrivial = wl.size() >= 2;
  c.label(aliased ? "calls, aliased" : "calls");
  auto judgeF = [&](const FRes &r, const char *form) {
    std::string f = std::string("form ") + form + ": ";
    std::string a, b;
    for (auto &x : r.log) a += x + " ";
    for (auto &x : wl) b += x + " ";
    PBT_CHECK(a == b, f + "called " + a + ", expected " + b);
    a = b = "";
    for (auto &x : r.report) a += x.first + (x.second ? " ok " : " failed ");
    for (auto &x : wr) b += x.first + (x.second ? " ok " : " failed ");
    PBT_CHECK(a == b, f + "reports " + a + ", expected " + b);
    JV got;
    std::string err, where;
    PBT_CHECK(ref::parse(r.out, got, &err), f + "the reply is " + printable(r.out));
    PBT_CHECK(ref::equal(got, want, true, &where), f + "the reply is " + printable(r.out) + ", expected " + printable(ref::text(want)));
  };
#define G(ns, form) judgeF(call<ns::S>(t), form);
  if (aliased)
  {
    G(l0, "JS_FUNCTION_ALIASES")
    G(l1, "JS_FUNCTION_WITH_NAME_ALIASES, external")
  }
  else
  {
    G(k0, "JS_FUNC_OBJ_SUPER")
    G(k1, "JS_FUNCTION_CONTAINER_WITH_SUPER")
    G(k2, "JS_FUNC_OBJ_EXTERNAL_SUPER")
    G(k3, "JS_FUNCTION_CONTAINER_EXTERNAL_WITH_SUPER")
    G(k4, "JS_FUNCTION_CONTAINER_WITH_SUPER_WITHOUT_MEMBERS")
    G(k5, "JS_FUNCTION_CONTAINER_EXTERNAL_WITH_SUPER_WITHOUT_MEMBERS")
    G(k6, "JS_FUNCTION_WITH_NAME")
  }
}
void run_case(Src &s, Ctx &c)
{
  switch (s.weighted({4, 2, 3}))
  {
  case 0: return objects(s, c);
  case 1: return large(s, c);
  default: return functions(s, c);
  }
}
size_t fixed_count() { return 0; }
void run_fixed(size_t, Ctx &) {}
