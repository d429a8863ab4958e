// A struct with a base-class tree, aliases, renamed and optional-like members, and a model of what a document does to it.
#pragma once
#ifndef JS_STD_OPTIONAL
#define JS_STD_OPTIONAL
#endif
#ifndef JS_STL_MAP
#define JS_STL_MAP
#endif
#include <optional>
#include <map>
#include <memory>
#include "jsutil.h"

namespace bind
{
using pbt::Src;
using ref::JV;

struct Root
{
  int e = 0;
  int ee = 0;
  JS_OBJ(e, ee);
};
struct Left : Root
{
  std::string c;
  int common = 0;
  JS_OBJECT_WITH_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(Root)), JS_MEMBER_ALIASES(c, "c_alias", "cc"), JS_MEMBER(common));
};
struct Right
{
  bool d = false;
  JS::Optional<int> od;
  int rest = 0;
  JS_OBJ(d, od, rest);
};
struct Top : Left, Right
{
  int a = 0;
  int ab = 0;
  int abc = 0;
  JS_OBJ_SUPER(JS_SUPER(Right, Left), a, ab, abc);
};
struct Side
{
  std::vector<int> bv;
  std::unique_ptr<int> bp;
  JS_OBJECT(JS_MEMBER_ALIASES(bv, "bvec", "x"), JS_MEMBER(bp));
};
struct N
{
  int n = 0;
  std::string s;
  JS::OptionalChecked<int> o;
  std::shared_ptr<int> sp;
  bool flag = false;
  JS_OBJECT(JS_MEMBER_ALIASES(n, "num", "number", "count", "nr"), JS_MEMBER(s), JS_MEMBER(o), JS_MEMBER(sp), JS_MEMBER_WITH_NAME(flag, "the flag"));
};
struct T : Top, Side
{
  int i = 0;
  std::string str;
  int x = 0;
  N nested;
  std::vector<N> list;
  std::map<std::string, N> dict;
  std::unique_ptr<N> ptr;
  JS::Nullable<int> nul;
  std::optional<int> so;
  JS::SilentString ss;
  JS::NullableChecked<std::string> nc;
  JS_OBJECT_WITH_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(Top), JS_SUPER_CLASS(Side)), JS_MEMBER_ALIASES(i, "int", "I", "a"),
                       JS_MEMBER_WITH_NAME_AND_ALIASES(str, "string", "str", "text"), JS_MEMBER(x), JS_MEMBER(nested), JS_MEMBER(list),
                       JS_MEMBER_ALIASES(dict, "dictionary", "map", "dict_3", "dict_", "di"), JS_MEMBER(ptr), JS_MEMBER(nul), JS_MEMBER(so), JS_MEMBER(ss), JS_MEMBER(nc));
};

enum Ty { Int, Str, Bool, Ints, Nst, NList, NDict, NPtr };
struct Field
{
  const char *name;
  std::vector<std::string> aliases;
  const char *super;
  bool optional;
  Ty type;
};
inline const std::vector<Field> &fieldsT()
{
  static const std::vector<Field> f = {{"i", {"int", "I", "a"}, "", false, Int},
                                       {"string", {"str", "text"}, "", false, Str},
                                       {"x", {}, "", false, Int},
                                       {"nested", {}, "", false, Nst},
                                       {"list", {}, "", false, NList},
                                       {"dict", {"dictionary", "map", "dict_3", "dict_", "di"}, "", false, NDict},
                                       {"ptr", {}, "", true, NPtr},
                                       {"nul", {}, "", false, Int},
                                       {"so", {}, "", true, Int},
                                       {"ss", {}, "", true, Str},
                                       {"nc", {}, "", false, Str},
                                       {"a", {}, "Top", false, Int},
                                       {"ab", {}, "Top", false, Int},
                                       {"abc", {}, "Top", false, Int},
                                       {"c", {"c_alias", "cc"}, "Left", false, Str},
                                       {"common", {}, "Left", false, Int},
                                       {"e", {}, "Root", false, Int},
                                       {"ee", {}, "Root", false, Int},
                                       {"d", {}, "Right", false, Bool},
                                       {"od", {}, "Right", true, Int},
                                       {"rest", {}, "Right", false, Int},
                                       {"bv", {"bvec", "x"}, "Side", false, Ints},
                                       {"bp", {}, "Side", true, Int}};
  return f;
}
inline const std::vector<Field> &fieldsN()
{
  static const std::vector<Field> f = {{"n", {"num", "number", "count", "nr"}, "", false, Int},
                                       {"s", {}, "", false, Str},
                                       {"o", {}, "", true, Int},
                                       {"sp", {}, "", false, Int},
                                       {"the flag", {}, "", false, Bool}};
  return f;
}
inline JV st(const std::string &s) { return JV::str(s); }
inline JV in(int v) { return JV::num(int64_t(v)); }
inline JV dump(const N &n)
{
  JV j = JV::obj();
  j.o = {{"n", in(n.n)}, {"s", st(n.s)}, {"o", n.o.assigned ? in(n.o.data) : JV::null()}, {"sp", n.sp ? in(*n.sp) : JV::null()},
         {"the flag", JV::boolean(n.flag)}};
  return j;
}
inline JV dump(const T &t)
{
  JV j = JV::obj(), l = JV::arr(), d = JV::obj(), v = JV::arr();
  for (auto &n : t.list)
    l.a.push_back(dump(n));
  for (auto &p : t.dict)
    d.o.emplace_back(p.first, dump(p.second));
  for (int x : t.bv)
    v.a.push_back(in(x));
  j.o = {{"i", in(t.i)}, {"string", st(t.str)}, {"x", in(t.x)}, {"nested", dump(t.nested)}, {"list", l}, {"dict", d},
         {"ptr", t.ptr ? dump(*t.ptr) : JV::null()}, {"nul", in(t.nul.data)}, {"so", t.so ? in(*t.so) : JV::null()}, {"ss", st(t.ss.data)},
         {"nc", t.nc.null ? JV::null() : st(t.nc.data)}, {"a", in(t.a)}, {"ab", in(t.ab)}, {"abc", in(t.abc)}, {"c", st(t.c)},
         {"common", in(t.common)}, {"e", in(t.e)}, {"ee", in(t.ee)}, {"d", JV::boolean(t.d)}, {"od", in(t.od.data)}, {"rest", in(t.rest)},
         {"bv", v}, {"bp", t.bp ? in(*t.bp) : JV::null()}};
  return j;
}

struct Lists
{
  std::vector<std::string> missing, unassigned;
  bool missing_nested = false;
};

// index of the field a document name binds to: own names of all members first, then aliases
inline int resolve(const std::vector<Field> &f, const std::string &name)
{
  for (size_t i = 0; i < f.size(); i++)
    if (name == f[i].name)
      return int(i);
  for (size_t i = 0; i < f.size(); i++)
    for (auto &a : f[i].aliases)
      if (name == a)
        return int(i);
  return -1;
}

inline void applyObj(JV &state, const JV &doc, const std::vector<Field> &f, Lists &l, int depth);
inline void applyField(JV &v, const JV &d, Ty t, Lists &l, int depth)
{
  switch (t)
  {
  case Int: case Str: case Bool: case Ints:
    v = d;
    break;
  case Nst:
    applyObj(v, d, fieldsN(), l, depth + 1);
    break;
  case NList:
    v = JV::arr();
    for (auto &e : d.a)
    {
      v.a.push_back(dump(N()));
      applyObj(v.a.back(), e, fieldsN(), l, depth + 1);
    }
    break;
  case NDict:
  {
    std::map<std::string, JV> m;
    for (auto &p : v.o)
      m[p.first] = p.second;
    for (auto &p : d.o)
    {
      JV e = dump(N());
      applyObj(e, p.second, fieldsN(), l, depth + 1);
      m[p.first] = e;
    }
    v = JV::obj();
    for (auto &p : m)
      v.o.emplace_back(p.first, p.second);
    break;
  }
  case NPtr:
    if (d.k == ref::Null)
      v = JV::null();
    else
    {
      v = dump(N());
      applyObj(v, d, fieldsN(), l, depth + 1);
    }
    break;
  }
}
inline void applyObj(JV &state, const JV &doc, const std::vector<Field> &f, Lists &l, int depth)
{
  std::vector<bool> seen(f.size(), false);
  for (auto &m : doc.o)
  {
    int i = resolve(f, m.first);
    if (i < 0)
    {
      l.missing.push_back(m.first);
      l.missing_nested = l.missing_nested || depth > 0;
      continue;
    }
    seen[size_t(i)] = true;
    for (auto &p : state.o)
      if (p.first == f[size_t(i)].name)
        applyField(p.second, m.second, f[size_t(i)].type, l, depth);
  }
  for (size_t i = 0; i < f.size(); i++)
    if (!seen[i] && !f[i].optional)
      l.unassigned.push_back((*f[i].super ? std::string(f[i].super) + "::" : std::string()) + f[i].name);
}

// names that match no member but look like one
inline std::string unknownName(Src &s, const std::vector<Field> &f)
{
  std::string n;
  switch (s.draw(5))
  {
  case 0: n = s.pick(f).name + std::string(1, char('a' + s.draw(26))); break;
  case 1:
    n = s.pick(f).name;
    n.pop_back();
    break;
  case 2:
    n = s.pick(f).name;
    n[s.draw(n.size())] ^= 0x20;
    break;
  case 3: n = s.pick(std::vector<std::string>{"unknown", "X", "", "Strin", "nestedx", "list2", "Top::a", "I2", " i", "b", "data", "null", "flag"}); break;
  default: n = "u" + std::to_string(s.draw(1000)); break;
  }
  for (auto &c : n)
    if ((unsigned char)c < 32 || c == '"' || c == '\\')
      c = '_';
  if (resolve(f, n) >= 0)
    n = "u_" + n;
  return n;
}

inline JV genObj(Src &s, const std::vector<Field> &f, int depth, unsigned presence, unsigned unknowns);
inline JV genField(Src &s, Ty t, int depth)
{
  switch (t)
  {
  case Int: return in(int(s.range(-100000, 100000)));
  case Str: return st(ref::genString(s, 40));
  case Bool: return JV::boolean(s.boolean());
  case Ints:
  {
    JV v = JV::arr();
    for (size_t n = s.draw(5); n-- > 0;)
      v.a.push_back(in(int(s.range(-9, 999))));
    return v;
  }
  case NPtr:
    if (s.chance(1, 4))
      return JV::null();
    // fall through
  case Nst: return genObj(s, fieldsN(), depth + 1, unsigned(1 + s.draw(8)), unsigned(s.draw(3)));
  case NList:
  {
    JV v = JV::arr();
    for (size_t n = s.draw(4); n-- > 0;)
      v.a.push_back(genObj(s, fieldsN(), depth + 1, unsigned(2 + s.draw(7)), unsigned(s.draw(2))));
    return v;
  }
  case NDict:
  {
    JV v = JV::obj();
    size_t n = s.draw(3);
    for (size_t i = 0; i < n; i++)
      v.o.emplace_back("key" + std::to_string(i), genObj(s, fieldsN(), depth + 1, unsigned(2 + s.draw(7)), unsigned(s.draw(2))));
    return v;
  }
  }
  return JV();
}
inline JV genObj(Src &s, const std::vector<Field> &f, int depth, unsigned presence, unsigned unknowns)
{
  JV v = JV::obj();
  std::set<std::string> used;
  for (auto &x : f)
  {
    if (!s.chance(presence, 8))
      continue;
    std::string n = x.name;
    if (!x.aliases.empty() && s.boolean())
    {
      n = s.pick(x.aliases);
      if (resolve(f, n) != int(&x - &f[0])) // shadowed by another member's own name
        n = x.name;
    }
    v.o.emplace_back(n, genField(s, x.type, depth));
    if (x.type == Int && s.chance(1, 10)) // a second occurrence
      v.o.emplace_back(x.name, genField(s, x.type, depth));
  }
  ref::GenOpt g;
  g.depth = 4;
  g.width = 5;
  for (size_t k = s.draw(unknowns + 1); k-- > 0;)
  {
    std::string n = unknownName(s, f);
    if (!used.insert(n).second)
      continue;
    // unknown members often contain the names of known ones
    JV u = s.chance(1, 3) ? genField(s, s.pick(std::vector<Ty>{Int, Nst, NList, Str, Ints}), depth)
           : s.boolean()  ? ref::genContainer(s, g, 1)
                          : ref::genValue(s, g, 1);
    ref::extreme(s, u);
    if (s.chance(1, 4))
    {
      JV w = JV::obj();
      w.o.emplace_back(s.pick(f).name, u);
      w.o.emplace_back("a", JV::num(int64_t(777777)));
      u = w;
    }
    v.o.emplace_back(n, u);
  }
  // any order; the relative order of two occurrences of one member is part of the case
  for (size_t i = v.o.size(); i > 1; i--)
    std::swap(v.o[i - 1], v.o[i - 1 - s.draw(i)]);
  return v;
}
inline JV genT(Src &s)
{
  return genObj(s, fieldsT(), 0, unsigned(s.draw(9)), unsigned(s.draw(6)));
}
inline void previous(Src &s, T &t)
{
  if (s.chance(1, 3))
    return;
  auto v = [&]() { return int(s.range(-5000, -1)); };
  t.i = v(), t.x = v(), t.a = v(), t.ab = v(), t.abc = v(), t.e = v(), t.ee = v(), t.common = v(), t.rest = v();
  t.od.data = v(), t.nul.data = v(), t.nested.n = v();
  t.str = "prev1", t.c = "prev2", t.nested.s = "prev3", t.ss.data = "prev4", t.d = s.boolean(), t.nested.flag = s.boolean();
  if (s.boolean())
    t.bv = {v(), v(), v(), v()}, t.so = v(), t.bp.reset(new int(v())), t.list.resize(3), t.nested.sp.reset(new int(v()));
  if (s.boolean())
    t.nested.o.data = v(), t.nested.o.assigned = true, t.nc.data = "prev5", t.nc.null = false;
}
} // namespace bind
