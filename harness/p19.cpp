#include "shape.h"
#include "metaref.h"
#include <memory>
using namespace pbt;
using namespace glue;
using namespace shape;
const char *const PROP_ID = "P19";
const char *const PROP_RULE =
  "Cases are histories on one JS::Map of up to 14 operations: parse an object (also as a member of a struct, also after earlier content, "
  "also truncated), parse an array or a scalar, find present and absent names, iterate, convert a member or the whole to one of 23 types, "
  "set a member (new or present; scalars, strings, containers, structs, maps, raw JSON, recorded tokens, values that are left out), "
  "replace all by a struct, serialize in both styles; with one parse context for all operations or a fresh one each. Oracle: an ordered "
  "key-value model with typed judges, an independent recomputation of the structural index, and the independent parser for the output. "
  "Non-trivial: at least one member set on a map that has other members, or an escaped name, or a failed conversion followed by more operations.";
void prop_init() {}

namespace
{
typedef std::string Str;
struct Holder
{
  int before = 0;
  JS::Map m;
  int after = 0;
  JS_OBJ(before, m, after);
};
template <typename T>
struct One
{
  T v{};
  JS_OBJ(v);
};
struct Whole
{
  int a = 0;
  Str b;
  std::vector<In> c;
  JS::OptionalChecked<int> d;
  JS_OBJ(a, b, c, d);
};

struct World
{
  Src &s;
  Ctx &c;
  JS::Map map;
  JV model = JV::obj(); // what the map holds
  bool empty = true;    // never assigned
  bool spelled = false; // names in the source may be written with escapes
  std::vector<std::unique_ptr<Exact>> texts;
  JS::ParseContext shared;
  bool share = false;
  int step = 0;
  bool failed = false;
  World(Src &s, Ctx &c) : s(s), c(c) {}
  std::string at(const std::string &what) { return "step " + std::to_string(step) + ", " + what; }
};

std::string genKey(Src &s)
{
  static const char *const odd[] = {"", "\"", "\\", "a\\b", "a\"b", "\n", "\x01", "/", "v", "x", "i", "{", "}", "\\u0041", "a", "b", "c", "d"};
  switch (s.draw(4))
  {
  case 0: return s.pick(odd);
  case 1: return ref::genString(s, 40);
  default: return std::string(1, char('a' + s.draw(8)));
  }
}

void check(World &w)
{
  // the index of the map describes its tokens
  if (w.map.tokens.data.empty())
  {
    PBT_CHECK(w.map.meta.empty(), w.at("index of an empty map"));
    return;
  }
  std::vector<MetaRef> want;
  bool data = false;
  size_t n = metaRef(w.map.tokens.data, 0, want, data);
  PBT_CHECK(n == w.map.tokens.data.size(), w.at("tokens after the end of the value"));
  compareMeta(w.map.meta, want, w.at("the map"));
  PBT_CHECK(tokensDenote(w.map.tokens.data, w.model), w.at("the tokens of the map are not those of " + ref::text(w.model)));
}

template <typename T>
struct Ops
{
  static JV gen(Src &s) { return O<T>::gen(s, 1); }
  static void judged(World &w, const JV *v, JS::Error er, JS::Error pcer, const T &t, const std::string &what)
  {
    PBT_CHECK((er == JS::Error::NoError) == (pcer == JS::Error::NoError),
              w.at(what + ": the returned error " + errName(er) + " and the one in the context, " + errName(pcer) + ", disagree"));
    if (er != JS::Error::NoError)
      w.failed = true;
    if (!v)
    {
      PBT_CHECK(er != JS::Error::NoError, w.at(what + ": a member that is not there is converted"));
      return;
    }
    Judge j = O<T>::judge(*v);
    if (j == Must)
    {
      PBT_CHECK(er == JS::Error::NoError, w.at(what + ": refused with " + errName(er)));
      PBT_CHECK(O<T>::same(t, *v), w.at(what + ": wrong value"));
    }
    if (j == Mustnt)
      PBT_CHECK(er != JS::Error::NoError, w.at(what + ": accepted"));
  }
  static void cast(World &w, const char *tn, bool whole, const std::string &key)
  {
    JS::ParseContext fresh;
    JS::ParseContext &pc = w.share ? w.shared : fresh;
    const JV *v = whole ? (w.empty ? nullptr : &w.model) : w.model.k == ref::Obj ? w.model.find(key) : nullptr;
    std::string what = std::string("castTo<") + tn + ">(" + (whole ? "" : "\"" + printable(key) + "\"") + ")";
    if (w.c.verbose)
      w.c.describe("cast", what);
    if (w.s.boolean())
    {
      T t = whole ? w.map.castTo<T>(pc) : w.map.castTo<T>(key, pc);
      judged(w, v, pc.error, pc.error, t, what);
    }
    else
    {
      T t{};
      JS::Error er = JS::Error::NoError;
      if (!whole && w.model.k == ref::Obj && w.s.boolean())
      {
        auto it = w.map.find(key);
        PBT_CHECK((it != w.map.end()) == (v != nullptr), w.at("find(\"" + printable(key) + "\")"));
        if (v)
        {
          er = w.map.castToType(it, pc, t);
          judged(w, v, er, pc.error, t, what);
        }
        return;
      }
      er = whole ? w.map.castToType(pc, t) : w.map.castToType(key, pc, t);
      judged(w, v, er, pc.error, t, what);
    }
  }
  static void set(World &w, const char *tn, const std::string &key)
  {
    One<T> one;
    JV v = O<T>::gen(w.s, 1);
    Exact e("{\"v\":" + ref::text(v) + "}");
    bool left_default = w.s.chance(1, 12);
    if (!left_default)
    {
      JS::ParseContext p(e.data(), e.size());
      if (p.parseTo(one) != JS::Error::NoError)
        return;
    }
    std::string t = JS::serializeStruct(one, JS::SerializerOptions(JS::SerializerOptions::Compact));
    JV out;
    if (!ref::parse(t, out) || out.k != ref::Obj)
      return; // an empty reference has no text; what values are written as is decided by P07
    const JV *val = out.find("v");
    if (w.c.verbose)
      w.c.describe("set", "\"" + printable(key) + "\" = " + tn + " " + (val ? ref::text(*val) : "(left out)"));
    JS::ParseContext fresh;
    JS::ParseContext &pc = w.share ? w.shared : fresh;
    JS::Error er = w.map.setValue(key, pc, one.v);
    if (!w.empty && w.model.k != ref::Obj)
    {
      PBT_CHECK(er != JS::Error::NoError, w.at("setValue accepted on a map that holds no object"));
      return;
    }
    PBT_CHECK(er == JS::Error::NoError, w.at(std::string("setValue of ") + tn + " failed with " + errName(er)));
    if (w.model.o.size())
      w.c.nontrivial = true;
    w.empty = false;
    for (size_t i = 0; i < w.model.o.size(); i++)
      if (w.model.o[i].first == key)
      {
        w.model.o.erase(w.model.o.begin() + i);
        break;
      }
    if (val)
      w.model.o.emplace_back(key, *val);
  }
};

typedef std::map<Str, std::vector<Str>> MapV;
typedef std::unordered_map<Str, int> UMapI;
typedef std::map<Str, JS::JsonTokens> MapT;
#define TYPES(X)                                                                                                       \
  X(int, 0) X(double, 0) X(bool, 0) X(Str, 0) X(std::vector<int>, 0) X(std::vector<Str>, 0) X(In, 1) X(std::vector<In>, 1) \
  X(MapV, 0) X(UMapI, 0) X(MapT, 0) X(JS::JsonObject, 0) X(JS::JsonArray, 0) X(JS::JsonObjectOrArray, 0) X(JS::JsonTokens, 0) \
  X(JS::OptionalChecked<int>, 0) X(std::unique_ptr<In>, 1) X(JS::NullableChecked<Str>, 0) X(JS::SilentString, 0)        \
  X(JS::SilentVector<bool>, 0) X(std::set<int>, 0) X(ty::Color, 0) X(ArS2, 0)
struct Ty
{
  const char *name;
  bool has_struct;
  JV (*gen)(Src &);
  void (*cast)(World &, const char *, bool, const std::string &);
  void (*set)(World &, const char *, const std::string &);
};
#define ROW(T, st) {#T, st, &Ops<T>::gen, &Ops<T>::cast, &Ops<T>::set},
const Ty types[] = {TYPES(ROW)};
const size_t NTYPES = sizeof(types) / sizeof(types[0]);

std::string someKey(World &w)
{
  Src &s = w.s;
  if (w.model.k == ref::Obj && !w.model.o.empty() && s.chance(3, 4))
  {
    std::string k = s.pick(w.model.o).first;
    if (s.chance(1, 10))
    {
      std::string e = ref::escape(k);
      return e; // the escaped spelling is another name
    }
    return k;
  }
  return genKey(s);
}

JV genObject(World &w)
{
  JV v = JV::obj();
  size_t n = w.s.size(8);
  for (size_t i = 0; i < n; i++)
  {
    std::string k = genKey(w.s);
    if (v.find(k))
      continue;
    v.o.emplace_back(k, w.s.chance(1, 4) ? wild(w.s) : types[w.s.draw(NTYPES)].gen(w.s));
    if (ref::escape(k).size() != k.size())
      w.c.nontrivial = true;
  }
  return v;
}

void parseInto(World &w)
{
  Src &s = w.s;
  JV v = s.chance(1, 8) ? wild(s) : genObject(w);
  bool member = s.chance(1, 4) || (v.k != ref::Obj && v.k != ref::Arr);
  bool sp = s.boolean();
  std::string t = ref::text(s, v, sp);
  if (member)
    t = "{\"before\":1,\"m\": " + t + ",\"after\":2}";
  bool cut = s.chance(1, 12);
  if (cut)
  {
    while (!t.empty() && strchr(" \t\r\n", t.back()))
      t.pop_back();
    t.resize(s.draw(t.size()));
  }
  w.c.identity(t);
  if (w.c.verbose)
    w.c.describe("parse", printable(t));
  w.texts.emplace_back(new Exact(t));
  JS::Error er;
  Holder h;
  h.m = std::move(w.map);
  JS::ParseContext pc(w.texts.back()->data(), w.texts.back()->size());
  er = member ? pc.parseTo(h) : pc.parseTo(h.m);
  w.map = std::move(h.m);
  if (cut)
  {
    PBT_CHECK(er != JS::Error::NoError, w.at("a truncated document is accepted"));
    // start afresh: what a map holds after a failed parse is not specified
    w.map = JS::Map();
    w.model = JV::obj();
    w.empty = true;
    w.spelled = false;
    w.failed = true;
    return;
  }
  PBT_CHECK(er == JS::Error::NoError, w.at(std::string("a valid document is refused with ") + errName(er)));
  PBT_CHECK(!member || (h.before == 1 && h.after == 2), w.at("the members around the map"));
  w.model = v;
  w.empty = false;
  w.spelled = sp;
}

void iterate(World &w)
{
  size_t n = w.empty ? 0 : w.model.k == ref::Obj ? w.model.o.size() : w.model.k == ref::Arr ? w.model.a.size() : 0;
  if (w.c.verbose)
    w.c.describe("iterate", "");
  size_t k = 0;
  std::vector<bool> seen(n, false);
  for (auto it = w.map.begin(); it != w.map.end(); ++it)
  {
    PBT_CHECK(k < n, w.at("iteration gives more than the " + std::to_string(n) + " members"));
    JS::ParseContext fresh;
    JS::JsonTokens t;
    PBT_CHECK(w.map.castToType(it, fresh, t) == JS::Error::NoError, w.at("conversion of an iterated member to tokens"));
    size_t i = k;
    if (w.model.k == ref::Obj)
    {
      std::string name;
      JV nm;
      PBT_CHECK(ref::parse("\"" + std::string(it->name.data, it->name.size) + "\"", nm) && nm.k == ref::Str, w.at("name of an iterated member"));
      for (i = 0; i < n; i++)
        if (w.model.o[i].first == nm.s)
          break;
      PBT_CHECK(i < n, w.at("iteration gives a member '" + printable(nm.s) + "'"));
    }
    PBT_CHECK(!seen[i], w.at("iteration gives a member twice"));
    seen[i] = true;
    PBT_CHECK(tokensDenote(t.data, w.model.k == ref::Obj ? w.model.o[i].second : w.model.a[i]), w.at("value of an iterated member"));
    k++;
  }
  PBT_CHECK(k == n, w.at("iteration gives " + std::to_string(k) + " of the " + std::to_string(n) + " members"));
}

void output(World &w)
{
  bool member = w.s.boolean();
  JS::SerializerOptions so(w.s.boolean() ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
  std::string t;
  if (member)
  {
    Holder h;
    h.m = std::move(w.map);
    t = JS::serializeStruct(h, so);
    w.map = std::move(h.m);
  }
  else
    t = JS::serializeStruct(w.map, so);
  if (w.c.verbose)
    w.c.describe("output", printable(t));
  JV got;
  std::string err;
  PBT_CHECK(ref::parse(t, got, &err), w.at("the output is not JSON: " + err + ": " + printable(t)));
  JV top = w.empty ? JV::obj() : w.model;
  if (member)
  {
    PBT_CHECK(got.k == ref::Obj && got.o.size() == 3 && got.o[1].first == "m", w.at("members around the map in " + printable(t)));
    JV x = got.o[1].second;
    got = x;
  }
  if (top.k != ref::Obj)
  {
    PBT_CHECK(ref::equal(got, top), w.at("the output is " + printable(t)));
    return;
  }
  PBT_CHECK(got.k == ref::Obj && got.o.size() == top.o.size(), w.at("the output is " + printable(t) + " instead of " + ref::text(top)));
  for (auto &m : top.o)
  {
    const JV *x = got.find(m.first);
    PBT_CHECK(x && ref::equal(*x, m.second), w.at("member '" + printable(m.first) + "' in the output " + printable(t)));
  }
}

void replaceAll(World &w)
{
  Whole x;
  JV c = O<std::vector<In>>::gen(w.s, 1);
  std::string b = ref::genString(w.s, 30);
  x.a = int(w.s.range(-5, 1000000));
  x.b = b;
  size_t n = w.s.size(4);
  for (size_t i = 0; i < n; i++)
  {
    x.c.emplace_back();
    x.c.back().i = int(i);
    x.c.back().s = ref::genString(w.s, 20);
    x.c.back().v.assign(w.s.size(3), 7);
  }
  if (w.s.boolean())
    x.d = int(w.s.draw(9));
  std::string t = JS::serializeStruct(x);
  JV v;
  PBT_CHECK(ref::parse(t, v), "serialized struct");
  if (w.c.verbose)
    w.c.describe("replace all", printable(t));
  JS::ParseContext fresh;
  JS::ParseContext &pc = w.share ? w.shared : fresh;
  JS::Error er = w.map.setValue(pc, x);
  PBT_CHECK(er == JS::Error::NoError && pc.error == JS::Error::NoError, w.at(std::string("setValue of a struct failed with ") + errName(er)));
  w.model = v;
  w.empty = false;
  w.spelled = false;
}

void step(World &w)
{
  Src &s = w.s;
  switch (s.weighted({3, 5, 3, 2, 8, 2, 2, 1}))
  {
  case 0: parseInto(w); break;
  case 1:
  {
    const Ty &t = types[s.draw(NTYPES)];
    if (t.has_struct && w.spelled)
      break; // struct members are matched as written: P13
    t.cast(w, t.name, false, someKey(w));
    break;
  }
  case 2:
  {
    std::string k = someKey(w);
    if (w.model.k != ref::Obj)
      break;
    auto it = w.map.find(k);
    if (w.c.verbose)
      w.c.describe("find", printable(k));
    PBT_CHECK((it != w.map.end()) == (w.model.find(k) != nullptr), w.at("find(\"" + printable(k) + "\")"));
    break;
  }
  case 3: iterate(w); break;
  case 4:
  {
    const Ty &t = types[s.draw(NTYPES)];
    std::string k = someKey(w);
    w.c.identity(k);
    w.c.identity(t.name);
    t.set(w, t.name, k);
    break;
  }
  case 5: output(w); break;
  case 6:
  {
    const Ty &t = types[s.draw(NTYPES)];
    if ((t.has_struct && w.spelled))
      break;
    t.cast(w, t.name, true, "");
    break;
  }
  default: replaceAll(w); break;
  }
  check(w);
}
} // namespace

void run_case(Src &s, Ctx &c)
{
  World w(s, c);
  w.share = s.boolean();
  if (s.chance(3, 4))
    parseInto(w);
  check(w);
  size_t n = 1 + s.draw(14);
  bool had = false;
  for (size_t i = 0; i < n; i++)
  {
    w.step = int(i + 1);
    if (w.failed)
      had = true;
    step(w);
  }
  if (had && w.share)
    c.nontrivial = true;
  w.step = int(n + 1);
  iterate(w);
  output(w);
}

// the defects that were repaired
size_t fixed_count() { return 6; }
void run_fixed(size_t i, Ctx &c)
{
  c.nontrivial = true;
  JS::ParseContext pc;
  JS::Map m;
  if (i == 0)
  {
    for (auto &t : m)
    {
      (void)t;
      fail("iteration of an empty map");
    }
    PBT_CHECK(m.find("") == m.end(), "find in an empty map");
  }
  if (i == 1)
  {
    m.setValue("a", pc, 1);
    PBT_CHECK(m.find("") == m.end(), "find(\"\") finds the end of the object");
    size_t n = 0;
    for (auto &t : m)
    {
      (void)t;
      n++;
    }
    PBT_CHECK(n == 1, "iteration of one member");
  }
  if (i == 2)
  {
    m.setValue("a\"b", pc, 1);
    PBT_CHECK(m.castTo<int>("a\"b", pc) == 1 && pc.error == JS::Error::NoError, "a name with a quote");
  }
  if (i == 3)
  {
    m.setValue("a", pc, std::string("x"));
    m.castTo<std::vector<int>>("a", pc);
    PBT_CHECK(pc.error != JS::Error::NoError, "a failed conversion is not reported");
  }
  if (i == 4)
  {
    std::string t = "{\"a\":1,\"b\":{\"x\":2},\"c\":[3]}";
    JS::ParseContext p(t.data(), t.size(), m);
    m.setValue("a", pc, 2);
    std::vector<MetaRef> want;
    bool data = false;
    metaRef(m.tokens.data, 0, want, data);
    compareMeta(m.meta, want, "after replacing a scalar before containers");
  }
  if (i == 5)
  {
    std::string t = "[1,2]";
    JS::ParseContext p(t.data(), t.size(), m);
    PBT_CHECK(m.setValue("a", pc, 2) != JS::Error::NoError, "a member is set in an array");
  }
}
