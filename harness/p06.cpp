#include "typed.h"
#include "jsutil.h"
using namespace pbt;
using namespace glue;
const char *const PROP_ID = "P06";
const char *const PROP_RULE =
  "Cases are values of a struct with 53 members that covers every type handler (own, nested and base-class members; "
  "strings of arbitrary bytes, all integer widths, finite floats, sequences, tuples, wrappers, maps, sets, enums, raw "
  "JSON, time points) and a serializer style; the text is parsed back, twice in a row. Non-trivial: "
  "at least three members differ from their defaults.";
void prop_init() {}

void run_case(Src &s, Ctx &c)
{
  ty::U u;
  ty::genSome(s, u);
  JS::SerializerOptions o(s.boolean() ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact);
  if (s.chance(1, 4))
    o.setShiftSize((unsigned char)(s.draw(9)));
  std::string t = JS::serializeStruct(u, o);
  c.identity(t);
  if (c.verbose)
    c.describe("serialized", printable(t));
  ty::U v;
  Exact e(t);
  JS::ParseContext p(e.data(), e.size());
  JS::Error err = p.parseTo(v);
  PBT_CHECK(err == JS::Error::NoError, std::string("serialized text does not parse: ") + errName(err) + " " + p.makeErrorString());
  const char *d = ty::G<ty::U>::diff(u, v);
  PBT_CHECK(!d, std::string("member changed: ") + d);
  // again, and the text is stable (unordered containers may change their order)
  std::string t2 = JS::serializeStruct(v, o);
  ty::U w;
  JS::ParseContext p2(t2.data(), t2.size());
  PBT_CHECK(p2.parseTo(w) == JS::Error::NoError, "second generation does not parse");
  d = ty::G<ty::U>::diff(u, w);
  PBT_CHECK(!d, std::string("member changed in the second generation: ") + d);
  PBT_CHECK(t2.size() == t.size(), "second generation text has another length");
  ty::U fresh;
  size_t n = ty::changed(u, fresh);
  c.nontrivial = n >= 3;
  c.label(n < 3 ? "members set: <3" : n < 12 ? "members set: 3-11" : "members set: 12+");
}
// single-type round trips with top-level containers
template <typename T>
static void root(Src &s, Ctx &c)
{
  T a{}, b{};
  ty::gen(s, a);
  std::string t = JS::serializeStruct(a);
  c.identity(t);
  JS::ParseContext p(t.data(), t.size());
  PBT_CHECK(p.parseTo(b) == JS::Error::NoError, "root value does not parse: " + printable(t));
  PBT_CHECK(ty::eq<T>(a, b), "root value changed: " + printable(t));
}
size_t fixed_count() { return 400; }
void run_fixed(size_t i, Ctx &c)
{
  Src s;
  s.mode = Src::Random;
  s.rng = i * 77 + 5;
  root<std::vector<std::string>>(s, c);
  root<ty::MapVS>(s, c);
  root<ty::UMapL>(s, c);
  root<ty::Tup>(s, c);
  root<ty::JTup>(s, c);
  root<std::vector<std::vector<int>>>(s, c);
  root<std::set<int>>(s, c);
  root<ty::Mid>(s, c);
  root<std::vector<std::unique_ptr<int>>>(s, c);
  root<std::map<std::string, ty::Mid>>(s, c);
  c.nontrivial = true;
}
