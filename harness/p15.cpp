#include "shape.h"
using namespace pbt;
using namespace glue;
const char *const PROP_ID = "P15";
const char *const PROP_RULE =
  "Cases are objects {v, after, last} for one of 49 destination types of the member v (scalars, sequences, tuples, sets, maps, "
  "structs, wrappers, raw captures and their nestings) whose value is suitable, or suitable with a part replaced by a value of "
  "another kind, or wrapped, or arbitrary; and the same value as the whole document. Oracle: a type-directed judgement of the document "
  "(must be accepted with this value, must be refused, leniency). Non-trivial: the judgement is 'must be refused', or the value was "
  "accepted and compared.";
void prop_init() {}

template <typename T>
struct W
{
  T v;
  int after = -77;
  std::string last = "unset";
  JS_OBJ(v, after, last);
};

template <typename T>
static void judgeOne(const char *tn, const ref::JV &val, const std::string &text, bool wrapped, int after, const std::string &last,
                     bool members_before, Ctx &c)
{
  shape::Judge j = shape::O<T>::judge(val);
  Exact e(text);
  W<T> w;
  JS::ParseContext pc(e.data(), e.size());
  JS::Error er = wrapped ? pc.parseTo(w) : pc.parseTo(w.v);
  std::string where = std::string("into ") + tn + ": ";
  static const char *const js[] = {"must accept", "leniency", "container for a string", "must refuse"};
  c.label(js[j]);
  if (j == shape::Must)
    PBT_CHECK(er == JS::Error::NoError, where + "suitable document refused with " + errName(er));
  if (j == shape::Mustnt)
  {
    PBT_CHECK(er != JS::Error::NoError, where + "unsuitable document accepted");
    PBT_CHECK(pc.error != JS::Error::NoError, where + "the context does not hold the returned error");
    c.nontrivial = true;
  }
  if (er == JS::Error::NoError)
  {
    c.nontrivial = true;
    PBT_CHECK(shape::O<T>::same(w.v, val), where + "accepted, but the value is not the one of the document");
    if (wrapped)
    {
      PBT_CHECK(w.after == after, where + "the member after it is " + std::to_string(w.after) + ", expected " + std::to_string(after));
      PBT_CHECK(w.last == last, where + "the last member is '" + printable(w.last) + "'");
    }
    if (j == shape::Known)
      c.known(PROP_ID, "container-for-string", where + "a container is accepted for a std::string");
  }
}

template <typename T>
static void one(const char *tn, Src &s, Ctx &c)
{
  ref::JV val = s.chance(1, 6) ? shape::wild(s) : shape::O<T>::gen(s, 0);
  size_t hits = s.weighted({3, 4, 1});
  for (size_t i = 0; i < hits; i++)
    shape::damage(s, val);
  bool container = val.k == ref::Arr || val.k == ref::Obj;
  bool wrapped = !container || !s.chance(1, 4);
  int after = int(s.range(0, 1000));
  std::string last = ref::genString(s, 20);
  bool before = s.chance(1, 4);
  ref::JV doc = val;
  if (wrapped)
  {
    doc = ref::JV::obj();
    if (before)
      doc.o.emplace_back("after", ref::JV::num(int64_t(after)));
    doc.o.emplace_back("v", val);
    if (!before)
      doc.o.emplace_back("after", ref::JV::num(int64_t(after)));
    doc.o.emplace_back("last", ref::JV::str(last));
  }
  std::string t = ref::text(s, doc, false);
  c.identity(tn);
  c.identity(t);
  c.label(std::string("type ") + tn);
  if (c.verbose)
    c.describe("document", printable(t) + "  into " + tn);
  judgeOne<T>(tn, val, t, wrapped, after, last, before, c);
}

void run_case(Src &s, Ctx &c)
{
#define CNT(T) +1
  size_t n = 0 SHAPE_TYPES(CNT);
  size_t k = s.draw(n);
  size_t i = 0;
  using namespace shape;
#define RUN(T)                                                                                                         \
  if (i++ == k)                                                                                                        \
    one<T>(#T, s, c);
  SHAPE_TYPES(RUN)
}

size_t fixed_count() { return 9; }
template <typename T>
static void fx(const char *tn, const char *val, Ctx &c)
{
  ref::JV v;
  if (!ref::parse(std::string("[") + val + "]", v))
    fail("HARNESS");
  std::string t = std::string("{\"v\":") + val + ",\"after\":5,\"last\":\"z\"}";
  if (c.verbose)
    c.describe("document", t + " into " + tn);
  judgeOne<T>(tn, v.a[0], t, true, 5, "z", false, c);
}
void run_fixed(size_t i, Ctx &c)
{
  switch (i)
  {
  case 0: return fx<std::string>("std::string", "{\"after\":1,\"last\":\"b\"}", c); // known finding; members must not leak
  case 1: return fx<std::string>("std::string", "[1,\"x\"]", c);
  case 2: return fx<std::vector<std::string>>("std::vector<std::string>", "[[],\"x\",{}]", c);
  case 3: return fx<std::array<std::string, 2>>("std::array<std::string,2>", "[\"a\"]", c);
  case 4: return fx<ty::Color>("enum", "7", c);
  case 5: return fx<int>("int", "\"\"", c);
  case 6: return fx<bool>("bool", "1", c);
  case 7: return fx<std::set<int>>("std::set<int>", "[1,1]", c);
  case 8: return fx<double>("double", "{}", c);
  }
}
