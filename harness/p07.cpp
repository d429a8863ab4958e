#include "typed.h"
#include "jsutil.h"
using namespace pbt;
using namespace glue;
const char *const PROP_ID = "P07";
const char *const PROP_RULE =
  "Cases are values of the 53-member struct (every type handler, non-finite floats included), of maps with hostile keys "
  "and of deep recursive structures, serialized under random options (style, indentation 0-20, start depth) and read by "
  "an independent strict JSON parser whose result must equal the reference value; the compact and pretty texts must be "
  "equal after removing insignificant whitespace. Non-trivial: at least 5 values in the document.";
void prop_init() {}

static std::string squeeze(const std::string &t)
{
  std::string o;
  bool str = false;
  for (size_t i = 0; i < t.size(); i++)
  {
    char c = t[i];
    if (str)
    {
      o += c;
      if (c == '\\' && i + 1 < t.size())
        o += t[++i];
      else if (c == '"')
        str = false;
    }
    else if (c == '"')
    {
      str = true;
      o += c;
    }
    else if (c != ' ' && c != '\n' && c != '\t' && c != '\r')
      o += c;
  }
  return o;
}

static size_t count(const ref::JV &v)
{
  size_t n = 1;
  for (auto &x : v.a)
    n += count(x);
  for (auto &x : v.o)
    n += count(x.second);
  return n;
}

struct Node
{
  std::string name;
  std::vector<Node> kids;
  std::map<std::string, std::vector<std::vector<int>>> m;
  JS_OBJ(name, kids, m);
};
static ref::JV jvNode(const Node &n)
{
  ref::JV j = ref::JV::obj();
  j.o.emplace_back("name", ref::JV::str(n.name));
  ref::JV k = ref::JV::arr();
  for (auto &x : n.kids)
    k.a.push_back(jvNode(x));
  j.o.emplace_back("kids", k);
  j.o.emplace_back("m", ty::jv(n.m));
  return j;
}
static void genNode(Src &s, Node &n, int depth)
{
  n.name = ref::genString(s, 40, true);
  if (s.chance(1, 3))
    ty::gen(s, n.m);
  size_t k = depth <= 0 ? 0 : depth > 6 ? 1 : s.size(3);
  for (size_t i = 0; i < k; i++)
  {
    n.kids.emplace_back();
    genNode(s, n.kids.back(), depth - 1);
  }
}

template <typename T>
static void check(Src &s, Ctx &c, const T &v, const ref::JV &want)
{
  std::string base = JS::serializeStruct(v, JS::SerializerOptions(JS::SerializerOptions::Compact));
  c.identity(base);
  if (c.verbose)
    c.describe("compact", printable(base));
  std::string sq = squeeze(base);
  for (int k = 0; k < 3; k++)
  {
    JS::SerializerOptions o(k == 0 || s.boolean() ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact);
    bool start = true;
    if (k)
    {
      if (s.chance(1, 3))
        o.setStyle(s.boolean() ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact);
      if (s.chance(2, 3))
        o.setShiftSize((unsigned char)(s.draw(21)));
      if (s.chance(1, 4))
      {
        o.setDepth(int(s.draw(6)));
        start = o.depth() == 0;
      }
    }
    std::string t = k == 2 ? base : JS::serializeStruct(v, o);
    if (c.verbose && k == 1)
      c.describe("styled", printable(t));
    ref::JV j;
    std::string err, where;
    PBT_CHECK(ref::parse(t, j, &err), "not valid JSON: " + err + ": " + printable(t));
    PBT_CHECK(ref::equal(want, j, true, &where), "denotes another value at " + where + ": " + printable(t));
    PBT_CHECK(squeeze(t) == sq, "styles differ in more than whitespace: " + printable(t));
    if (k < 2 && start && !std::is_same<T, ty::U>::value && o.style() == JS::SerializerOptions::Pretty)
    {
      std::string bad = indentProblem(t, o.shiftSize());
      PBT_CHECK(bad.empty(), bad + ": " + printable(t));
    }
  }
  c.nontrivial = count(want) >= 5;
}

void run_case(Src &s, Ctx &c)
{
  switch (s.weighted({6, 2, 2}))
  {
  case 0:
  {
    ty::U u;
    ty::genSome(s, u);
    if (s.chance(1, 8))
      u.d = s.pick(std::vector<double>{INFINITY, -INFINITY, NAN});
    if (s.chance(1, 8))
      u.f = s.pick(std::vector<float>{INFINITY, -INFINITY, NAN});
    check(s, c, u, ty::jv(u));
    c.label("struct");
    return;
  }
  case 1:
  {
    ty::MapVS m;
    ty::gen(s, m);
    check(s, c, m, ty::jv(m));
    c.label("map");
    return;
  }
  default:
  {
    Node n;
    genNode(s, n, s.chance(1, 6) ? 10 + int(s.draw(200)) : 4);
    check(s, c, n, jvNode(n));
    c.label("recursive");
    return;
  }
  }
}
size_t fixed_count() { return 3; }
void run_fixed(size_t i, Ctx &c)
{
  Src s;
  s.mode = Src::Replay;
  std::map<std::string, std::vector<std::string>> m;
  if (i == 0)
    for (int k = 0; k < 128; k++)
      m[std::string(1, char(k))] = {std::string(size_t(k % 20), 'x') + char(k)};
  if (i == 1)
    m[""] = {""};
  if (i == 2)
    m["\""] = {"\\", "\"", "/", "\x7f", "\xff"};
  check(s, c, m, ty::jv(m));
}
