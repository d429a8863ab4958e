#include "jsutil.h"
using namespace pbt;
using namespace glue;
typedef ref::JV JV;
const char *const PROP_ID = "P24";
const char *const PROP_RULE =
  "Cases are documents (any nesting up to 9, all spellings, repeated and empty names, exotic white space, large strings that cross the "
  "4096-byte output buffer) reformatted with every style and indentation (constructed or set), into an empty or pre-filled string; plus "
  "every kind of truncation and random damage. Oracle: the independent parser's token list (names, order, raw values) before and after; "
  "idempotence; compact(pretty(x)) = compact(x) and pretty(compact(x)) = pretty(x); an error for every truncation and whenever reading "
  "the tokens of the text gives one. Non-trivial: nesting of at least two, or a truncated or damaged text.";
void prop_init() {}

static JS::SerializerOptions genOptions(Src &s, std::string &desc, bool &pretty)
{
  JS::SerializerOptions::Style st = s.boolean() ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty;
  pretty = st == JS::SerializerOptions::Pretty;
  desc = pretty ? "pretty" : "compact";
  JS::SerializerOptions o(st);
  switch (s.draw(4))
  {
  case 0:
    break;
  case 1:
    o = JS::SerializerOptions(pretty ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
    o.setStyle(st);
    desc += " by setStyle";
    break;
  default:
  {
    unsigned char n = (unsigned char)(s.chance(1, 20) ? s.draw(256) : s.draw(9));
    o.setShiftSize(n);
    desc += " shift " + std::to_string(int(n));
  }
  }
  return o;
}
static std::string fmtWith(Src &s, const std::string &t, const JS::SerializerOptions &o, const std::string &what)
{
  Exact e(t);
  std::string out;
  switch (s.draw(4))
  {
  case 0: out.assign(1 + s.draw(40), 'Z'); break;
  case 1: out.assign(4096, 'Z'); break;
  default: break;
  }
  JS::Error er = JS::reformat(e.data(), e.size(), out, o);
  PBT_CHECK(er == JS::Error::NoError, what + ": a valid document is refused with " + errName(er) + ": " + printable(t));
  return out;
}
void run_case(Src &s, Ctx &c)
{
  ref::GenOpt g;
  g.depth = int(1 + s.draw(9));
  g.unique_names = s.boolean();
  JV v = ref::genDoc(s, g);
  if (s.chance(1, 20))
  {
    // around the size of the output buffer
    JV pad = JV::arr();
    pad.a.push_back(JV::str(std::string(4000 + s.draw(200), 'p')));
    pad.a.push_back(v);
    v = pad;
  }
  std::string t = ref::text(s, v, true);
  c.identity(t);
  std::string desc;
  bool pretty;
  JS::SerializerOptions o = genOptions(s, desc, pretty);
  if (c.verbose)
    c.describe("document", desc + ": " + printable(t));
  for (auto &x : v.a)
    if (x.k == ref::Obj || x.k == ref::Arr)
      c.nontrivial = true;
  for (auto &x : v.o)
    if (x.second.k == ref::Obj || x.second.k == ref::Arr)
      c.nontrivial = true;
  JV a;
  std::vector<ref::Tok> ta, tb;
  std::string err;
  PBT_CHECK(ref::parse(t, a, &err, &ta), "generator: " + err);
  std::string r = fmtWith(s, t, o, desc);
  if (c.verbose)
    c.describe("result", printable(r));
  JV b;
  PBT_CHECK(ref::parse(r, b, &err, &tb), desc + ": the result is not JSON: " + err + ": " + printable(r));
  compareToks(tb, ta, desc + ": the result");
  PBT_CHECK(fmtWith(s, r, o, desc + ", again") == r, desc + ": reformatting the result changes it: " + printable(r));
  JS::SerializerOptions pr(JS::SerializerOptions::Pretty), co(JS::SerializerOptions::Compact);
  std::string p = fmtWith(s, t, pr, "pretty"), k = fmtWith(s, t, co, "compact");
  PBT_CHECK(fmtWith(s, p, co, "pretty then compact") == k, "compact(pretty(x)) differs from compact(x): " + printable(k));
  PBT_CHECK(fmtWith(s, k, pr, "compact then pretty") == p, "pretty(compact(x)) differs from pretty(x): " + printable(p));
  if (pretty)
  {
    std::string bad = indentProblem(r, o.shiftSize());
    PBT_CHECK(bad.empty(), desc + ": " + bad + ": " + printable(r));
  }
  if (!pretty)
    PBT_CHECK(r == k, desc + ": differs from compact: " + printable(r));
  else
    PBT_CHECK(fmtWith(s, k, o, desc + " from compact") == r, desc + ": depends on the white space of the input");
  std::string out2;
  PBT_CHECK(JS::reformat(t, out2, o) == JS::Error::NoError && out2 == r, desc + ": the overload for strings gives another result");
  // damage
  if (s.chance(1, 2))
  {
    std::string d = t;
    bool cut = s.boolean();
    if (cut)
    {
      while (!d.empty() && strchr(" \t\r\n", d.back()))
        d.pop_back();
      size_t b0 = 0;
      while (strchr(" \t\r\n", d[b0]))
        b0++;
      d.resize(b0 + 1 + s.draw(d.size() - b0 - 1));
    }
    else
      d = ref::mutate(s, d);
    if (c.verbose)
      c.describe("damaged", printable(d));
    Exact e(d);
    std::string out;
    JS::Error er = JS::reformat(e.data(), e.size(), out, o);
    c.nontrivial = true;
    if (cut)
    {
      c.label("truncated");
      PBT_CHECK(er != JS::Error::NoError, desc + ": a truncated document is accepted");
    }
    else
    {
      Read rd = readAll(d);
      bool bad = rd.error != JS::Error::NeedMoreData || rd.depth != 0;
      c.label(bad ? "damaged" : "still readable");
      PBT_CHECK(bad ? er != JS::Error::NoError : er == JS::Error::NoError, desc + (bad ? ": an invalid document is accepted" : ": refused"));
    }
  }
}
size_t fixed_count() { return 1; }
void run_fixed(size_t, Ctx &)
{
  JS::SerializerOptions o;
  o.setStyle(JS::SerializerOptions::Compact);
  std::string out;
  JS::reformat(std::string("{ \"a\" : [ 1 , 2 ] }"), out, o);
  PBT_CHECK(out == "{\"a\":[1,2]}", "options set to compact give " + out);
}
