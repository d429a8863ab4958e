#include "shape.h"
#include "feed.h"
using namespace pbt;
using namespace glue;
const char *const PROP_ID = "P18";
const char *const PROP_RULE =
  "Cases are histories on one map (std::map or std::unordered_map from string to int, int64, bool, string, vector, struct, map, pointer, "
  "nullable or raw object; as the root or as a member): parse up to three objects (keys with quotes, backslashes, control characters, "
  "multi-byte characters, empty, long; any escape spelling; in one buffer or cut into several), truncate the last one, give a value that is "
  "not an object of suitable values; then serialize in both styles. Oracle: a key-value model; the independent parser; refusal of every "
  "proper prefix. Non-trivial: some key needs escaping or is empty, or the document is unsuitable or truncated.";
void prop_init() {}
using namespace shape;

template <typename M>
struct W
{
  int before = 0;
  M v;
  int after = -1;
  JS_OBJ(before, v, after);
};

static std::string genKey(Src &s)
{
  static const char *const odd[] = {"", "\"", "\\", "\\\"", "a\"b", "\n", "\x01", "/", "key", "{}", ":", "\\u0041", "\x1f\x7f"};
  switch (s.draw(4))
  {
  case 0: return s.pick(odd);
  case 1: return ref::genString(s, 70, true);
  case 2: return std::string(1, char('a' + s.draw(26)));
  default: return ref::genString(s, 20);
  }
}

static JV sortedJv(JV v)
{
  for (auto &x : v.a)
    x = sortedJv(x);
  for (auto &x : v.o)
    x.second = sortedJv(x.second);
  std::sort(v.o.begin(), v.o.end(), [](const std::pair<std::string, JV> &a, const std::pair<std::string, JV> &b) { return a.first < b.first; });
  return v;
}

template <typename M>
static void one(const char *tn, bool exact, bool sorted, Src &s, Ctx &c)
{
  typedef typename M::mapped_type T;
  W<M> w;
  JV model = JV::obj();
  c.identity(tn);
  c.label(std::string("type ") + tn);
  size_t steps = 1 + s.draw(3);
  for (size_t k = 0; k < steps; k++)
  {
    JV v = JV::obj();
    size_t n = s.size(7);
    for (size_t i = 0; i < n; i++)
    {
      std::string key = genKey(s);
      if (!model.o.empty() && s.chance(1, 5))
        key = s.pick(model.o).first;
      if (!v.find(key))
        v.o.emplace_back(key, O<T>::gen(s, 1));
      if (ref::escape(key).size() != key.size() || key.empty())
        c.nontrivial = true;
    }
    bool damaged = s.chance(1, 6);
    if (damaged)
      damage(s, v);
    bool root = (v.k == ref::Obj || v.k == ref::Arr) && s.boolean();
    JV doc = v;
    if (!root)
    {
      doc = JV::obj();
      doc.o.emplace_back("before", JV::num(int64_t(3)));
      doc.o.emplace_back("v", v);
      doc.o.emplace_back("after", JV::num(int64_t(k)));
    }
    // names of the struct itself are plain words, so spelling escapes matters only inside the map
    std::string t;
    if (root)
      t = ref::text(s, doc, true);
    else
      t = "{\"before\":3,\"v\":" + ref::text(s, v, true) + " ,\"after\":" + std::to_string(k) + "}";
    if (std::string(tn).find("In") != std::string::npos)
      t = ref::text(s, doc, false); // struct member names are compared as written
    Judge j = O<M>::judge(v);
    bool cut = s.chance(1, 8);
    if (cut)
    {
      while (!t.empty() && strchr(" \t\r\n", t.back()))
        t.pop_back();
      t.resize(s.draw(t.size()));
    }
    c.identity(t);
    Feeder f(t, s.chance(1, 3) ? genCuts(s, t) : std::vector<size_t>());
    f.mode = s.boolean() ? 0 : 1;
    f.upfront = f.mode == 0 ? f.parts.size() : 0;
    if (c.verbose)
      c.describe("parse", f.show() + " into " + tn);
    JS::ParseContext pc;
    f.attach(pc.tokenizer);
    JS::Error er = root ? pc.parseTo(w.v) : pc.parseTo(w);
    PBT_CHECK(f.problem.empty(), f.problem);
    std::string where = "step " + std::to_string(k) + " into " + tn + ": ";
    if (cut)
    {
      PBT_CHECK(er != JS::Error::NoError, where + "a truncated object is accepted");
      c.nontrivial = true;
      c.label("truncated");
      return;
    }
    if (j == Mustnt)
    {
      PBT_CHECK(er != JS::Error::NoError, where + "an unsuitable document is accepted");
      c.nontrivial = true;
      c.label("unsuitable");
      return;
    }
    if (j == Must)
      PBT_CHECK(er == JS::Error::NoError, where + "refused with " + errName(er));
    if (j == Known || er != JS::Error::NoError)
      return; // a container for a string: P15
    if (j == Free)
      exact = false; // a leniency, such as a number taken as a string
    for (auto &m : v.o)
    {
      bool had = false;
      for (auto &x : model.o)
        if (x.first == m.first)
        {
          x.second = m.second;
          had = true;
        }
      if (!had)
        model.o.push_back(m);
    }
    PBT_CHECK(w.v.size() == model.o.size(), where + std::to_string(w.v.size()) + " entries instead of " + std::to_string(model.o.size()));
    for (auto &m : model.o)
    {
      auto it = w.v.find(m.first);
      PBT_CHECK(it != w.v.end(), where + "key '" + printable(m.first) + "' is missing");
      PBT_CHECK(O<T>::same(it->second, m.second), where + "wrong value under '" + printable(m.first) + "'");
    }
    if (!root)
      PBT_CHECK(w.before == 3 && w.after == int(k), where + "the surrounding members are wrong");
  }
  // output
  for (int style = 0; style < 2; style++)
  {
    JS::SerializerOptions so(style ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
    bool member = s.boolean();
    std::string t = member ? JS::serializeStruct(w, so) : JS::serializeStruct(w.v, so);
    JV got;
    std::string err;
    PBT_CHECK(ref::parse(t, got, &err), std::string(tn) + ": output is not JSON: " + err + ": " + printable(t));
    if (member)
    {
      PBT_CHECK(got.k == ref::Obj && got.o.size() == 3 && got.o[1].first == "v" && got.o[2].first == "after", "members of the struct");
      JV x = got.o[1].second;
      got = x;
    }
    PBT_CHECK(got.k == ref::Obj && got.o.size() == model.o.size(), std::string(tn) + ": number of members in the output: " + printable(t));
    std::string prev;
    for (size_t i = 0; i < got.o.size(); i++)
    {
      const JV *m = model.find(got.o[i].first);
      PBT_CHECK(m, std::string(tn) + ": key '" + printable(got.o[i].first) + "' in the output");
      if (exact)
        PBT_CHECK(ref::equal(sortedJv(got.o[i].second), sortedJv(*m)), std::string(tn) + ": value of '" + printable(got.o[i].first) + "' in the output");
      for (size_t k2 = 0; k2 < i; k2++)
        PBT_CHECK(got.o[k2].first != got.o[i].first, std::string(tn) + ": key written twice");
      if (sorted && i)
        PBT_CHECK(got.o[i - 1].first < got.o[i].first, std::string(tn) + ": order of the keys");
    }
    M back;
    Exact e(member ? ref::text(got) : t);
    JS::ParseContext pc(e.data(), e.size());
    PBT_CHECK(pc.parseTo(back) == JS::Error::NoError, std::string(tn) + ": own output refused");
    PBT_CHECK(back.size() == w.v.size() && O<M>::same(back, model), std::string(tn) + ": reading the output back gives another map");
  }
}

typedef std::string Str;
#define MAPS(X)                                                                                                        \
  X(std::map, int, 0, 1) X(std::map, Str, 1, 1) X(std::map, int64_t, 0, 1) X(std::map, bool, 1, 1) X(std::map, In, 0, 1) \
  X(std::map, std::vector<Str>, 1, 1) X(std::map, JS::NullableChecked<bool>, 1, 1) X(std::map, std::unique_ptr<In>, 0, 1) \
  X(std::unordered_map, Str, 1, 0) X(std::unordered_map, int, 0, 0) X(std::unordered_map, In, 0, 0)                    \
  X(std::unordered_map, JS::JsonObject, 1, 0) X(std::unordered_map, std::shared_ptr<Str>, 1, 0)
typedef std::map<Str, std::map<Str, bool>> MM;
typedef std::unordered_map<Str, std::unordered_map<Str, std::vector<Str>>> UU;
typedef std::map<Str, std::unordered_map<Str, JS::JsonArray>> MU;
void run_case(Src &s, Ctx &c)
{
  size_t k = s.draw(16), i = 0;
  if (k == i++)
    return one<MM>("map of map", true, true, s, c);
  if (k == i++)
    return one<UU>("unordered_map of unordered_map", true, false, s, c);
  if (k == i++)
    return one<MU>("map of unordered_map of raw arrays", true, true, s, c);
#define RUN(Mt, T, ex, so)                                                                                             \
  if (k == i++)                                                                                                        \
  {                                                                                                                    \
    typedef Mt<Str, T> M;                                                                                              \
    return one<M>(#Mt "<" #T ">", ex, so, s, c);                                                                       \
  }
  MAPS(RUN)
}
size_t fixed_count() { return 0; }
void run_fixed(size_t, Ctx &) {}
