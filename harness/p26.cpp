#include "jsutil.h"
#include <json_struct/json_struct_diff.h>
#include <deque>
#include <cmath>
using namespace pbt;
using namespace glue;
typedef ref::JV JV;
const char *const PROP_ID = "P26";
const char *const PROP_RULE =
  "Cases are histories on one comparison context: comparing documents (independent ones, and copies of the base or of an earlier document "
  "with values changed, nudged around the tolerance, retyped, added, removed, swapped, re-ordered or re-spaced), switching the base, "
  "recomparing with other options, resetting the base. After every step every kept comparison is checked. Oracle: a direct recursive "
  "comparison of the two values that yields the class of every token and the tokens missing from every container. Non-trivial: at least "
  "one difference below the root, or a base switch or recomparison.";
void prop_init() {}

// ---------------------------------------------------------------- model
struct Expect
{
  std::vector<JS::DiffType> d;
  std::map<size_t, std::vector<ref::Tok>> members, items; // by index of the container's first token
  bool any() const
  {
    for (auto x : d)
      if (x != JS::DiffType::NoDiff)
        return true;
    return false;
  }
};
static void flat(const JV &v, bool named, const std::string &name, std::vector<ref::Tok> &o)
{
  ref::Tok t;
  t.named = named;
  t.name = named ? ref::escape(name) : "";
  switch (v.k)
  {
  case ref::Null: t.kind = '0'; t.value = "null"; break;
  case ref::Bool: t.kind = 't'; t.value = v.b ? "true" : "false"; break;
  case ref::Num: t.kind = 'n'; t.value = v.s; break;
  case ref::Str: t.kind = 's'; t.value = ref::escape(v.s); break;
  case ref::Arr: t.kind = '['; t.value = "["; break;
  case ref::Obj: t.kind = '{'; t.value = "{"; break;
  }
  o.push_back(t);
  for (auto &x : v.a)
    flat(x, false, "", o);
  for (auto &x : v.o)
    flat(x.second, true, x.first, o);
  if (v.k == ref::Arr || v.k == ref::Obj)
  {
    ref::Tok e;
    e.kind = v.k == ref::Arr ? ']' : '}';
    e.named = false;
    e.value = std::string(1, e.kind);
    o.push_back(e);
  }
}
static void whole(const JV &v, JS::DiffType t, Expect &e)
{
  std::vector<ref::Tok> o;
  flat(v, false, "", o);
  e.d.insert(e.d.end(), o.size(), t);
}
static bool sameNumber(const std::string &a, const std::string &b, const JS::DiffOptions &o)
{
  double x = strtod(a.c_str(), nullptr), y = strtod(b.c_str(), nullptr);
  if (x == y)
    return true;
  if (!(o.flags & JS::DiffFlags::FuzzyFloatComparison))
    return false;
  return std::fabs(y - x) <= o.fuzzyEpsilon;
}
static void compare(const JV &b, const JV &d, const JS::DiffOptions &o, Expect &e)
{
  size_t at = e.d.size();
  switch (d.k)
  {
  case ref::Null: e.d.push_back(JS::DiffType::NoDiff); return;
  case ref::Bool: e.d.push_back(b.b == d.b ? JS::DiffType::NoDiff : JS::DiffType::ValueDiff); return;
  case ref::Num: e.d.push_back(sameNumber(b.s, d.s, o) ? JS::DiffType::NoDiff : JS::DiffType::ValueDiff); return;
  case ref::Str: e.d.push_back(b.s == d.s ? JS::DiffType::NoDiff : JS::DiffType::ValueDiff); return;
  case ref::Arr:
    e.d.push_back(JS::DiffType::NoDiff);
    for (size_t i = 0; i < d.a.size(); i++)
      if (i >= b.a.size())
        whole(d.a[i], JS::DiffType::NewArrayItem, e);
      else if (b.a[i].k != d.a[i].k)
        whole(d.a[i], JS::DiffType::TypeDiff, e);
      else
        compare(b.a[i], d.a[i], o, e);
    for (size_t i = d.a.size(); i < b.a.size(); i++)
    {
      flat(b.a[i], false, "", e.items[at]);
      e.d[at] = JS::DiffType::MissingArrayItems;
    }
    e.d.push_back(JS::DiffType::NoDiff);
    return;
  case ref::Obj:
    e.d.push_back(JS::DiffType::NoDiff);
    for (auto &m : d.o)
    {
      const JV *x = nullptr;
      for (auto &n : b.o)
        if (n.first == m.first)
          x = &n.second;
      if (!x)
        whole(m.second, JS::DiffType::NewMember, e);
      else if (x->k != m.second.k)
        whole(m.second, JS::DiffType::TypeDiff, e);
      else
        compare(*x, m.second, o, e);
    }
    for (auto &n : b.o)
    {
      bool found = false;
      for (auto &m : d.o)
        found = found || m.first == n.first;
      if (!found)
      {
        flat(n.second, true, n.first, e.members[at]);
        e.d[at] = JS::DiffType::MissingMembers;
      }
    }
    e.d.push_back(JS::DiffType::NoDiff);
    return;
  }
}
static Expect expected(const JV &b, const JV &d, const JS::DiffOptions &o)
{
  Expect e;
  if (b.k != d.k)
    whole(d, JS::DiffType::RootItemDiff, e);
  else
    compare(b, d, o, e);
  return e;
}

// ---------------------------------------------------------------- documents
static const char *tn(JS::DiffType t)
{
  static const char *const n[] = {"NoDiff", "ValueDiff", "TypeDiff", "NewMember", "NewArrayItem", "MissingMembers", "MissingArrayItems", "RootItemDiff", "ErroneousRootItem"};
  return size_t(t) < 9 ? n[t] : "?";
}
static std::string spaced(Src &s, const JV &v)
{
  ref::Print p;
  p.ws = int(s.draw(4));
  std::string o = p.ws ? ref::wsgen(s, p.ws) : "";
  ref::print(&s, v, p, o);
  return o;
}
static void all(JV &v, std::vector<JV *> &o)
{
  o.push_back(&v);
  for (auto &x : v.a)
    all(x, o);
  for (auto &x : v.o)
    all(x.second, o);
}
static void edit(Src &s, JV &root, const ref::GenOpt &g)
{
  std::vector<JV *> n;
  all(root, n);
  JV &v = *n[s.draw(n.size())];
  bool ob = v.k == ref::Obj, ar = v.k == ref::Arr;
  if (!ob && !ar)
  {
    if (v.k == ref::Num && s.chance(1, 2))
    {
      double x = strtod(v.s.c_str(), nullptr);
      static const double step[] = {1e-7, 5e-7, 1e-6, 1.5e-6, 1e-3, 1, 1e-9};
      double y = x + (s.boolean() ? 1 : -1) * step[s.draw(7)];
      if (std::isfinite(y))
        v.s = fmt("%.17g", y);
      return;
    }
    if (v.k == ref::Num && s.chance(1, 3))
    {
      if (v.s.find_first_of(".eE") == std::string::npos)
        v.s += s.boolean() ? ".0" : "e0";
      return;
    }
    if (v.k == ref::Str && !v.s.empty() && s.boolean())
    {
      if (s.boolean())
        v.s += "x";
      else
        v.s[s.draw(v.s.size())] = 'q';
      return;
    }
    v = s.chance(1, 3) ? ref::genValue(s, g, 2) : ref::genScalar(s, g);
    return;
  }
  switch (s.draw(6))
  {
  case 0: // add
  {
    JV x = ref::genValue(s, g, 2);
    if (ar)
      v.a.insert(v.a.begin() + long(s.boolean() ? v.a.size() : s.draw(v.a.size() + 1)), x);
    else
    {
      std::string name = ref::genName(s, g);
      for (auto &m : v.o)
        if (m.first == name)
          return;
      v.o.insert(v.o.begin() + long(s.draw(v.o.size() + 1)), {name, x});
    }
    return;
  }
  case 1: // remove
    if (ar && !v.a.empty())
      v.a.erase(v.a.begin() + long(s.boolean() ? v.a.size() - 1 : s.draw(v.a.size())));
    else if (ob && !v.o.empty())
      v.o.erase(v.o.begin() + long(s.draw(v.o.size())));
    return;
  case 2: // re-order
    if (ob)
      for (size_t i = v.o.size(); i > 1; i--)
        std::swap(v.o[i - 1], v.o[s.draw(i)]);
    else if (v.a.size() > 1)
      std::swap(v.a[s.draw(v.a.size())], v.a[s.draw(v.a.size())]);
    return;
  case 3: // other kind or content
    if (&v != &root)
      v = ref::genValue(s, g, 1);
    return;
  case 4:
    v.a.clear();
    v.o.clear();
    return;
  default: // rename
    if (ob && !v.o.empty())
    {
      std::string name = ref::genName(s, g);
      for (auto &m : v.o)
        if (m.first == name)
          return;
      v.o[s.draw(v.o.size())].first = name;
    }
  }
}
static void reorder(Src &s, JV &v)
{
  for (auto &x : v.a)
    reorder(s, x);
  for (size_t i = v.o.size(); i > 1; i--)
    std::swap(v.o[i - 1], v.o[s.draw(i)]);
  for (auto &x : v.o)
    reorder(s, x.second);
}
static JS::DiffOptions options(Src &s)
{
  JS::DiffOptions o;
  if (s.boolean())
    o.flags = s.boolean() ? JS::DiffFlags::None : JS::DiffFlags::FuzzyFloatComparison;
  if (s.chance(1, 2))
  {
    static const double e[] = {0, 1e-6, 1e-3, 0.5, 10, 1e-12};
    o.fuzzyEpsilon = e[s.draw(6)];
  }
  return o;
}
struct Doc
{
  JV v;
  const std::string *t;
};
static void check(const JS::DiffTokens &got, const Doc &b, const Doc &d, const JS::DiffOptions &o, const std::string &what)
{
  Expect e = expected(b.v, d.v, o);
  std::vector<ref::Tok> toks;
  flat(d.v, false, "", toks);
  PBT_CHECK(got.error == JS::DiffError::NoError, what + ": error");
  PBT_CHECK(got.tokens.data.size() == toks.size() && got.diffs.size() == toks.size() && got.size() == toks.size(), what + ": another number of tokens");
  for (size_t i = 0; i < toks.size(); i++)
  {
    PBT_CHECK(conv(got.tokens.data[i]) == toks[i], what + ": other tokens");
    if (got.diffs[i] != e.d[i])
      fail(what + fmt(": token %zu ", i) + toks[i].show() + " is " + tn(got.diffs[i]) + ", expected " + tn(e.d[i]) + " comparing " + printable(*d.t) + " with the base " + printable(*b.t));
  }
  PBT_CHECK((got.diff_count == 0) == !e.any(), what + fmt(": the count of differences is %zu", got.diff_count));
  PBT_CHECK(got.missingMembers.size() == e.members.size(), what + fmt(": %zu objects lack members, expected %zu", got.missingMembers.size(), e.members.size()));
  PBT_CHECK(got.missingArrayItems.size() == e.items.size(), what + fmt(": %zu arrays lack items, expected %zu", got.missingArrayItems.size(), e.items.size()));
  for (size_t i = 0; i < toks.size(); i++)
  {
    for (int k = 0; k < 2; k++)
    {
      auto &m = k ? e.items : e.members;
      const std::vector<JS::Token> *l = k ? got.getMissingArrayItems(got.tokens.data[i]) : got.getMissingMembers(got.tokens.data[i]);
      auto it = m.find(i);
      PBT_CHECK((l != nullptr) == (it != m.end()), what + fmt(": missing %s of token %zu", k ? "items" : "members", i));
      if (!l)
        continue;
      PBT_CHECK(l->size() == it->second.size(), what + fmt(": %zu missing tokens at token %zu, expected %zu", l->size(), i, it->second.size()));
      for (size_t q = 0; q < l->size(); q++)
        PBT_CHECK(conv((*l)[q]) == it->second[q], what + ": missing " + conv((*l)[q]).show() + ", expected " + it->second[q].show());
    }
  }
}

// documents compared with no base at all: everything is new
static void noBase(Src &s, Ctx &c)
{
  ref::GenOpt g;
  g.depth = int(1 + s.draw(5));
  std::deque<std::string> texts;
  std::vector<JV> vs;
  JS::DiffOptions o = options(s);
  JS::DiffContext dc(o);
  if (s.boolean())
  {
    texts.push_back(spaced(s, ref::genDoc(s, g)));
    dc.reset(texts.back(), options(s));
    texts.push_back(spaced(s, ref::genDoc(s, g)));
    dc.diff(texts.back());
    dc.clear(o);
    PBT_CHECK(dc.diffs.empty() && dc.error == JS::DiffError::NoError, "a cleared context keeps comparisons");
  }
  size_t n = 1 + s.draw(3);
  for (size_t i = 0; i < n; i++)
  {
    vs.push_back(ref::genDoc(s, g));
    texts.push_back(spaced(s, vs.back()));
    c.identity("nobase" + texts.back());
    if (c.verbose)
      c.describe("compare with nothing", printable(texts.back()));
    PBT_CHECK(dc.diff(texts.back()) == i && dc.error == JS::DiffError::NoError, "a valid document is refused");
  }
  if (s.boolean())
    dc.invalidate();
  for (size_t i = 0; i < n; i++)
  {
    std::vector<ref::Tok> toks;
    flat(vs[i], false, "", toks);
    const JS::DiffTokens &d = dc.diffs[i];
    PBT_CHECK(d.tokens.data.size() == toks.size() && d.diffs.size() == toks.size(), "no base: number of tokens");
    JS::DiffType t = vs[i].k == ref::Obj ? JS::DiffType::NewMember : JS::DiffType::NewArrayItem;
    for (size_t k = 0; k < toks.size(); k++)
      PBT_CHECK(d.diffs[k] == t, fmt("no base: token %zu is ", k) + tn(d.diffs[k]));
    PBT_CHECK(d.diff_count == toks.size() && d.missingMembers.empty() && d.missingArrayItems.empty(), fmt("no base: %zu differences in %zu tokens", d.diff_count, toks.size()));
    c.nontrivial = c.nontrivial || toks.size() > 3;
  }
  c.label("no base");
}
void run_case(Src &s, Ctx &c)
{
  if (s.chance(1, 20))
    return noBase(s, c);
  ref::GenOpt g;
  g.depth = int(1 + s.draw(5));
  g.width = 2 + s.draw(5);
  std::deque<std::string> texts;
  std::vector<Doc> docs;
  auto mk = [&](const JV &v) {
    texts.push_back(spaced(s, v));
    c.identity(texts.back());
    return Doc{v, &texts.back()};
  };
  Doc base = mk(ref::genDoc(s, g));
  JS::DiffOptions o = options(s);
  bool by_reset = s.chance(1, 4);
  JS::DiffContext dc(o);
  if (by_reset)
  {
    std::string junk = "[1,{\"a\":[2]}]";
    texts.push_back(junk);
    dc.reset(texts.back(), o);
    dc.diff(std::string("{}"));
    dc.reset(*base.t, o);
  }
  else
    switch (s.draw(3))
    {
    case 0: dc = JS::DiffContext(*base.t, o); break;
    case 1: dc = JS::DiffContext(base.t->data(), base.t->size(), o); break;
    default:
    {
      const char *z = base.t->c_str();
      dc = JS::DiffContext(z, o);
    }
    }
  PBT_CHECK(dc.error == JS::DiffError::NoError, "a valid base is refused");
  if (c.verbose)
    c.describe("base", printable(*base.t) + fmt(" flags %d eps %g", int(o.flags), o.fuzzyEpsilon));
  size_t steps = 1 + s.draw(5);
  for (size_t step = 0; step < steps; step++)
  {
    size_t op = docs.empty() ? 0 : s.weighted({4, 2, 1, 1, 1});
    std::string what;
    if (op == 0)
    {
      JV v;
      const JV &from = docs.empty() || s.boolean() ? base.v : docs[s.draw(docs.size())].v;
      unsigned kind = unsigned(s.weighted({6, 1, 1, 1}));
      if (kind == 0)
      {
        v = from;
        size_t n = 1 + s.size(6);
        for (size_t i = 0; i < n; i++)
          edit(s, v, g);
        if (v.k != ref::Obj && v.k != ref::Arr)
          v = from;
      }
      else if (kind == 1)
        v = ref::genDoc(s, g);
      else
      {
        v = from;
        if (kind == 2)
          reorder(s, v);
      }
      Doc d = mk(v);
      if (c.verbose)
        c.describe("compare", printable(*d.t));
      size_t at = s.boolean() ? dc.diff(*d.t) : dc.diff(d.t->data(), d.t->size());
      PBT_CHECK(dc.error == JS::DiffError::NoError && at == docs.size(), "a valid document is refused");
      docs.push_back(d);
      what = "compare";
      Expect e = expected(base.v, v, o);
      for (size_t i = 1; i < e.d.size(); i++)
        if (e.d[i] != JS::DiffType::NoDiff && e.d[i] != JS::DiffType::RootItemDiff)
          c.nontrivial = true;
      for (auto x : e.d)
        if (x != JS::DiffType::NoDiff)
          c.label(tn(x));
      if (kind == 2 && &from == &base.v)
        PBT_CHECK(dc.diffs.back().diff_count == 0, "a re-ordered and re-spaced copy of the base differs");
    }
    else if (op == 1)
    {
      size_t i = s.draw(docs.size());
      dc.changeBase(i);
      std::swap(base, docs[i]);
      what = fmt("change of base to %zu", i);
      c.nontrivial = true;
      c.label("base switch");
    }
    else if (op == 2)
    {
      o = options(s);
      dc.invalidate(o);
      what = "other options";
      c.nontrivial = true;
      c.label("other options");
    }
    else if (op == 3)
    {
      dc.invalidate();
      what = "recompare";
      c.nontrivial = true;
      c.label("recompared");
    }
    else
    {
      base = mk(s.boolean() ? ref::genDoc(s, g) : docs[0].v);
      o = options(s);
      dc.reset(*base.t, o);
      docs.clear();
      PBT_CHECK(dc.diffs.empty(), "comparisons are kept after a reset");
      what = "reset";
    }
    if (c.verbose && op)
      c.describe("then", what);
    c.identity(what);
    PBT_CHECK(dc.diffs.size() == docs.size(), "number of comparisons");
    for (size_t i = 0; i < docs.size(); i++)
      check(dc.diffs[i], base, docs[i], o, what + fmt(", document %zu", i));
  }
}
size_t fixed_count() { return 6; }
static Doc lit(const char *t)
{
  static std::deque<std::string> keep;
  keep.push_back(t);
  Doc d;
  if (!ref::parse(t, d.v))
    fail("HARNESS");
  d.t = &keep.back();
  return d;
}
static void pair(const char *b, const char *d)
{
  Doc x = lit(b), y = lit(d);
  JS::DiffContext dc(*x.t);
  dc.diff(*y.t);
  check(dc.diffs[0], x, y, JS::DiffOptions(), "fixed");
  dc.changeBase(0);
  check(dc.diffs[0], y, x, JS::DiffOptions(), "fixed, other base");
  dc.invalidate();
  check(dc.diffs[0], y, x, JS::DiffOptions(), "fixed, again");
}
void run_fixed(size_t i, Ctx &)
{
  switch (i)
  {
  case 0: return pair("[]", "[[1],2,3]");
  case 1: return pair("[1e999,-1e999]", "[1e999,1e999]");
  case 2: return pair("[1e-320]", "[1e-321]");
  case 3: return pair("[1,{}]", "[{\"a\":[1]},2]");
  case 4: return pair("{\"a\":[1,[2,{\"b\":3}]]}", "{\"a\":[1]}");
  case 5:
  {
    JS::DiffContext dc(std::string("[1]"));
    dc.reset(std::string(""));
    PBT_CHECK(dc.error == JS::DiffError::EmptyString, "an empty base is not reported");
    PBT_CHECK(dc.diff(std::string("")) == size_t(-1) && dc.error == JS::DiffError::EmptyString, "an empty document is not reported");
    PBT_CHECK(dc.diff(std::string("  ")) == size_t(-1) && dc.error == JS::DiffError::NoTokens, "a blank document is not reported");
  }
  }
}
