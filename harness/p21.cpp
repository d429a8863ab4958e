#include "shape.h"
#include "feed.h"
using namespace pbt;
using namespace glue;
using namespace shape;
const char *const PROP_ID = "P21";
const char *const PROP_RULE =
  "Cases are documents with raw JSON (object, array, object-or-array; owning, referencing; token list) as the root, as a member, as an array "
  "element, as a map value, as a nullable and inside a nested struct, with ordinary members around, in random member order, spelling and "
  "white space; parsed once or twice into the same object, in one buffer or (owning kinds) cut at any places with any delivery, with "
  "buffers destroyed when released; sometimes with a value of the wrong kind or truncated. Oracle: the independent parser decides that "
  "every capture denotes the generated value, the text captured from cut input equals the one captured from uncut input, the neighbours "
  "are right, and both styles of output denote the document. Non-trivial: a raw value with nested containers, or cut input.";
void prop_init() {}
namespace
{
typedef std::string Str;
template <typename R>
struct Sub
{
  R a;
  bool b = false;
  JS_OBJ(a, b);
};
template <typename R>
struct Doc
{
  int pre = 0;
  R r;
  Str mid;
  std::vector<R> rs;
  int m2 = 0;
  std::map<Str, R> rm;
  Sub<R> sub;
  R tail;
  Str post;
  JS_OBJ(pre, r, mid, rs, m2, rm, sub, tail, post);
};
template <typename R> struct Acc { static Str get(const R &r) { return r.data; } };
template <typename R> struct AccRef { static Str get(const R &r) { return Str(r.ref.data, r.ref.size); } };
template <> struct Acc<JS::JsonObjectRef> : AccRef<JS::JsonObjectRef> {};
template <> struct Acc<JS::JsonArrayRef> : AccRef<JS::JsonArrayRef> {};
template <> struct Acc<JS::JsonObjectOrArrayRef> : AccRef<JS::JsonObjectOrArrayRef> {};
template <> struct Acc<JS::JsonTokens> { static Str get(const JS::JsonTokens &) { return ""; } };

bool nested(const JV &v)
{
  for (auto &x : v.a)
    if (x.k == ref::Obj || x.k == ref::Arr)
      return true;
  for (auto &x : v.o)
    if (x.second.k == ref::Obj || x.second.k == ref::Arr)
      return true;
  return false;
}
template <typename R>
JV genRaw(Src &s, Ctx &c)
{
  JV v = O<R>::gen(s, 1);
  if (nested(v))
    c.nontrivial = true;
  return v;
}

template <typename R>
struct T
{
  JV r, tail, sub_a;
  std::vector<JV> rs;
  std::vector<std::pair<Str, JV>> rm;
  int pre = 0, m2 = 0;
  bool sub_b = false;
  Str mid, post;
  std::vector<int> order;
  JV make(Src &s, Ctx &c)
  {
    r = genRaw<R>(s, c);
    tail = genRaw<R>(s, c);
    sub_a = genRaw<R>(s, c);
    rs.clear();
    rm.clear();
    size_t n = s.size(4);
    for (size_t i = 0; i < n; i++)
      rs.push_back(genRaw<R>(s, c));
    n = s.size(3);
    for (size_t i = 0; i < n; i++)
      rm.emplace_back("k" + std::to_string(i), genRaw<R>(s, c));
    pre = int(s.range(0, 1000));
    m2 = int(s.range(0, 1000));
    sub_b = s.boolean();
    mid = ref::genString(s, 20);
    post = ref::genString(s, 20);
    JV d = JV::obj();
    JV jrs = JV::arr(), jrm = JV::obj(), jsub = JV::obj();
    jrs.a = rs;
    jrm.o = rm;
    jsub.o.emplace_back("a", sub_a);
    jsub.o.emplace_back("b", JV::boolean(sub_b));
    if (s.boolean())
      std::swap(jsub.o[0], jsub.o[1]);
    d.o.emplace_back("pre", JV::num(int64_t(pre)));
    d.o.emplace_back("r", r);
    d.o.emplace_back("mid", JV::str(mid));
    d.o.emplace_back("rs", jrs);
    d.o.emplace_back("m2", JV::num(int64_t(m2)));
    d.o.emplace_back("rm", jrm);
    d.o.emplace_back("sub", jsub);
    d.o.emplace_back("tail", tail);
    d.o.emplace_back("post", JV::str(post));
    for (size_t i = d.o.size(); i > 1 && s.boolean(); i--)
      std::swap(d.o[i - 1], d.o[s.draw(i)]);
    return d;
  }
  void check(const Doc<R> &d, const Str &where)
  {
    PBT_CHECK(O<R>::same(d.r, r), where + "r holds " + printable(Acc<R>::get(d.r)) + " instead of " + ref::text(r));
    PBT_CHECK(O<R>::same(d.tail, tail), where + "tail holds " + printable(Acc<R>::get(d.tail)) + " instead of " + ref::text(tail));
    PBT_CHECK(O<R>::same(d.sub.a, sub_a), where + "sub.a holds " + printable(Acc<R>::get(d.sub.a)) + " instead of " + ref::text(sub_a));
    PBT_CHECK(d.rs.size() == rs.size(), where + "number of elements of rs");
    for (size_t i = 0; i < rs.size(); i++)
      PBT_CHECK(O<R>::same(d.rs[i], rs[i]), where + "rs[" + std::to_string(i) + "] holds " + printable(Acc<R>::get(d.rs[i])) + " instead of " + ref::text(rs[i]));
    for (size_t i = 0; i < rm.size(); i++)
    {
      auto it = d.rm.find(rm[i].first);
      PBT_CHECK(it != d.rm.end(), where + "entry missing in rm");
      PBT_CHECK(O<R>::same(it->second, rm[i].second), where + "rm." + rm[i].first + " holds " + printable(Acc<R>::get(it->second)) + " instead of " + ref::text(rm[i].second));
    }
    PBT_CHECK(d.pre == pre && d.m2 == m2 && d.sub.b == sub_b && d.mid == mid && d.post == post, where + "a member around the raw ones is wrong");
  }
};
template <typename R>
std::vector<Str> captures(const Doc<R> &d)
{
  std::vector<Str> o{Acc<R>::get(d.r), Acc<R>::get(d.tail), Acc<R>::get(d.sub.a)};
  for (auto &x : d.rs)
    o.push_back(Acc<R>::get(x));
  for (auto &x : d.rm)
    o.push_back(Acc<R>::get(x.second));
  return o;
}

template <typename R>
void one(const char *tn, bool owning, Src &s, Ctx &c)
{
  c.label(tn);
  c.identity(tn);
  Doc<R> d;
  T<R> t;
  JV jd;
  size_t rounds = s.chance(1, 4) ? 2 : 1;
  std::unique_ptr<Exact> keep;
  for (size_t round = 0; round < rounds; round++)
  {
    jd = t.make(s, c);
    d.rm.clear(); // a map keeps its old entries: P18
    Str text = ref::text(s, jd, false);
    c.identity(text);
    if (c.verbose)
      c.describe("parse", Str(tn) + " from " + printable(text));
    keep.reset(new Exact(text));
    JS::ParseContext pc(keep->data(), keep->size());
    JS::Error er = pc.parseTo(d);
    PBT_CHECK(er == JS::Error::NoError, Str(tn) + ": refused with " + errName(er));
    t.check(d, Str(tn) + ": ");
    if (owning && s.boolean())
    {
      c.nontrivial = true;
      c.label("cut");
      Doc<R> f;
      if (round)
        f = d;
      f.rm.clear();
      Feeder fd(text, genCuts(s, text));
      fd.mode = unsigned(s.draw(3));
      fd.rng = s.draw(1000) * 2 + 1;
      fd.upfront = fd.mode == 0 ? fd.parts.size() : s.draw(3) % (fd.parts.size() + 1);
      if (fd.mode == 2)
        fd.mode = 1;
      if (c.verbose)
        c.describe("cut", fd.show());
      JS::ParseContext p2;
      fd.attach(p2.tokenizer);
      er = p2.parseTo(f);
      PBT_CHECK(fd.problem.empty(), fd.problem);
      PBT_CHECK(er == JS::Error::NoError, Str(tn) + ", cut input: refused with " + errName(er));
      t.check(f, Str(tn) + ", cut input: ");
      std::vector<Str> a = captures(d), b = captures(f);
      for (size_t i = 0; i < a.size(); i++)
        PBT_CHECK(a[i] == b[i], Str(tn) + ": captured <" + printable(b[i]) + "> from cut input and <" + printable(a[i]) + "> from one buffer");
    }
  }
  for (int style = 0; style < 2; style++)
  {
    Str out = JS::serializeStruct(d, JS::SerializerOptions(style ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty));
    JV got;
    Str err;
    PBT_CHECK(ref::parse(out, got, &err), Str(tn) + ": the output is not JSON: " + err + ": " + printable(out));
    JV want = JV::obj();
    for (auto n : {"pre", "r", "mid", "rs", "m2", "rm", "sub", "tail", "post"})
      want.o.emplace_back(n, *jd.find(n));
    JV &sub = want.o[6].second;
    if (sub.o[0].first != "a")
      std::swap(sub.o[0], sub.o[1]);
    Str where;
    PBT_CHECK(ref::equal(got, want, true, &where), Str(tn) + ": the output denotes another document at " + where + ": " + printable(out));
  }
  // as the root
  JV rv = genRaw<R>(s, c);
  if (rv.k == ref::Obj || rv.k == ref::Arr)
  {
    Str text = ref::text(s, rv, true);
    c.identity(text);
    if (c.verbose)
      c.describe("root", printable(text));
    Exact e(text);
    R r;
    JS::ParseContext pc(e.data(), e.size());
    PBT_CHECK(pc.parseTo(r) == JS::Error::NoError, Str(tn) + ": refused as the root");
    PBT_CHECK(O<R>::same(r, rv), Str(tn) + ": as the root it holds " + printable(Acc<R>::get(r)));
    Str out = JS::serializeStruct(r);
    JV got;
    PBT_CHECK(ref::parse(out, got) && ref::equal(got, rv), Str(tn) + ": as the root it is written as " + printable(out));
    if (owning)
    {
      Feeder fd(text, genCuts(s, text));
      fd.mode = s.boolean() ? 1 : 0;
      fd.upfront = fd.mode == 0 ? fd.parts.size() : 0;
      JS::ParseContext p2;
      fd.attach(p2.tokenizer);
      R r2;
      PBT_CHECK(p2.parseTo(r2) == JS::Error::NoError, Str(tn) + ": refused as the root, cut: " + fd.show());
      PBT_CHECK(Acc<R>::get(r2) == Acc<R>::get(r), Str(tn) + ": as the root, cut, it holds <" + printable(Acc<R>::get(r2)) + ">: " + fd.show());
    }
    // a truncated value is not captured
    while (!text.empty() && strchr(" \t\r\n", text.back()))
      text.pop_back();
    text.resize(s.draw(text.size()));
    Feeder fd(text, s.boolean() ? genCuts(s, text) : std::vector<size_t>());
    fd.mode = 0;
    fd.upfront = fd.parts.size();
    JS::ParseContext p3;
    fd.attach(p3.tokenizer);
    R r3;
    PBT_CHECK(p3.parseTo(r3) != JS::Error::NoError, Str(tn) + ": a truncated value is captured: " + fd.show());
  }
}
} // namespace
void run_case(Src &s, Ctx &c)
{
  switch (s.draw(9))
  {
  case 0: case 1: return one<JS::JsonObject>("JsonObject", true, s, c);
  case 2: case 3: return one<JS::JsonArray>("JsonArray", true, s, c);
  case 4: return one<JS::JsonObjectOrArray>("JsonObjectOrArray", true, s, c);
  case 5: return one<JS::JsonObjectRef>("JsonObjectRef", false, s, c);
  case 6: return one<JS::JsonArrayRef>("JsonArrayRef", false, s, c);
  case 7: return one<JS::JsonObjectOrArrayRef>("JsonObjectOrArrayRef", false, s, c);
  default: return one<JS::JsonTokens>("JsonTokens", false, s, c);
  }
}
size_t fixed_count() { return 2; }
void run_fixed(size_t i, Ctx &)
{
  if (i == 0)
  {
    JS::JsonTokens t;
    JS::ParseContext p("[1,2]", 5, t);
    Sub<JS::JsonTokens> x;
    x.a = t;
    Str o = JS::serializeStruct(x);
    JV v;
    PBT_CHECK(ref::parse(o, v) && v.find("a") && v.find("a")->a.size() == 2, "tokens recorded at the root lose the name of the member: " + o);
  }
  if (i == 1)
  {
    Sub<JS::JsonObject> o;
    Sub<JS::JsonArray> a;
    Sub<JS::JsonObjectOrArray> b;
    for (const Str &t : {JS::serializeStruct(o), JS::serializeStruct(a), JS::serializeStruct(b)})
    {
      JV v;
      PBT_CHECK(ref::parse(t, v), "empty raw member written as " + t);
    }
  }
}
