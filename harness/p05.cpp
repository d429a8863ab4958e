#include "jsutil.h"
#include "relaxed.h"
using namespace pbt;
using namespace glue;
const char *const PROP_ID = "P05";
const char *const PROP_RULE =
  "Cases are a random document, a random combination of the four switches, and decorations (line comments, unquoted "
  "names and words, newline separators, trailing commas) in random legal places, read with the switches on, with each "
  "used switch off in turn, and damaged by 1-4 edits under all switch combinations against a reference reader. "
  "Non-trivial: the text uses at least one extension, or it is damaged and the reference reader refuses it.";
void prop_init() {}

static Read readSw(const std::string &t, rel::Sw sw, bool first)
{
  return readAll(t, Opts::from(sw.bits()), first);
}

static void judged(const std::string &t, rel::Sw sw, Ctx &c, bool &refused)
{
  rel::Reader rd(t, sw);
  bool ok = rd.document();
  Read r = readSw(t, sw, true);
  if (ok && !rd.tolerated && !rd.toks.empty() && (rd.toks[0].kind == '{' || rd.toks[0].kind == '['))
  {
    PBT_CHECK(r.error == JS::Error::NoError, "legal text refused with switches " + sw.show() + ": " + errName(r.error) +
                                               " after " + showToks(r.toks));
    compareToks(r.toks, rd.toks, "legal text, switches " + sw.show());
    return;
  }
  if (ok && !rd.tolerated)
    return; // scalar root
  if (!rd.tolerated)
  {
    PBT_CHECK(!r.complete(), "illegal text (" + rd.err + " at " + std::to_string(rd.p) + ") read as complete with switches " +
                               sw.show() + ": " + showToks(r.toks));
    refused = true;
  }
  else
    PBT_CHECK(ok || !r.complete(), "illegal text (" + rd.err + " at " + std::to_string(rd.p) +
                                     ") read as complete with switches " + sw.show());
  std::vector<ref::Tok> pre(rd.toks.begin(), rd.toks.begin() + long(std::min(rd.toks.size(), r.toks.size())));
  compareToks(r.toks, pre, "tokens before the error, switches " + sw.show());
}

void run_case(Src &s, Ctx &c)
{
  rel::Sw on = rel::Sw::from(unsigned(s.draw(16)));
  ref::GenOpt g;
  ref::JV v = ref::genDoc(s, g);
  rel::Printer pr(s, on);
  rel::Printed d = pr.document(v);
  bool damage = s.chance(1, 3);
  c.identity(on.show() + d.text);
  if (c.verbose)
  {
    c.describe("switches", on.show());
    c.describe("text", printable(d.text));
  }
  if (damage)
  {
    std::string m = ref::mutate(s, d.text);
    m.erase(std::remove(m.begin(), m.end(), '\0'), m.end());
    c.identity(m);
    if (c.verbose)
      c.describe("damaged", printable(m));
    bool refused = false;
    for (unsigned b = 0; b < 16; b++)
      judged(m, rel::Sw::from(b), c, refused);
    c.nontrivial = refused;
    c.label("damaged");
    return;
  }
  Read r = readSw(d.text, on, true);
  PBT_CHECK(r.error == JS::Error::NoError, std::string("legal text refused: ") + errName(r.error) + " after " + showToks(r.toks));
  compareToks(r.toks, d.toks, "decorated document");
  Read all = readSw(d.text, on, false);
  PBT_CHECK(all.error == JS::Error::NeedMoreData && all.complete() && all.roots == 1, "text after the document");
  // switches that the text does not need change nothing (newline only when no newline precedes a comma or colon)
  for (unsigned b = 0; b < 16; b++)
  {
    rel::Sw o = rel::Sw::from(b);
    if ((o.bits() & d.used.bits()) != d.used.bits())
    {
      Read x = readSw(d.text, o, true);
      PBT_CHECK(!x.complete(), "read as complete with switches " + o.show() + " although it needs " + d.used.show());
    }
    else if (o.newline <= on.newline)
    {
      Read x = readSw(d.text, o, true);
      // a comma after the last scalar element of an array is claimed only with its switch
      if (o.comma || !on.comma)
      {
        PBT_CHECK(x.error == JS::Error::NoError, "refused with switches " + o.show() + ", it needs only " + d.used.show());
        compareToks(x.toks, d.toks, "switches " + o.show());
      }
    }
  }
  c.nontrivial = d.used.bits() != 0;
  if (d.used.comments) c.label("comments");
  if (d.used.ascii) c.label("unquoted");
  if (d.used.newline) c.label("newline separators");
  if (d.used.comma) c.label("trailing comma");
  if (!d.used.bits()) c.label("strict text");
}

struct F { unsigned sw; const char *t; };
static const F FIXED[] = {
  {8, "{\"a\":1//c\n}"}, {8, "[1//c\n,2]"}, {8, "[1,//c\n2]"}, {8, "//\n[]"}, {8, "// x\r\n[1]"}, {8, "{//c\n\"a\"//c\n://c\n1//c\n}"},
  {8, "[1/2]"}, {8, "[1/"}, {8, "[1 /* c */]"}, {8, "[/ / 1]"}, {10, "[1//c\n2]"}, {10, "{\"a\":1 //c\n\"b\":2}"}, {2, "[1\n2\n\n3\n]"},
  {2, "{\"a\":1\n\"b\":2}"}, {2, "[[]\n[]]"}, {2, "[1\n,2]"}, {2, "[1 2]"}, {4, "[1,]"}, {4, "{\"a\":1,}"}, {4, "[[],]"},
  {4, "[,]"}, {4, "[1,,]"}, {4, "{,}"}, {1, "{a:b}"}, {1, "[a,b]"}, {1, "{true:1}"}, {1, "{a:true}"}, {1, "{1:2}"}, {1, "{a b:1}"},
  {15, "{a:b//c\n}"}, {15, "{a:b //c\nc:[d\ne,]\n}"}, {0, "{a:1}"}, {0, "{\"a\":b}"}, {0, "//c\n[]"}, {0, "[1\n2]"},
  {1, "[trueish,nullable,falsehood]"}, {1, "[a_b,c^d,e`f]"}, {8, "[\"//not a comment\"]"}, {8, "{\"//\":\"//\"}"}};
size_t fixed_count() { return sizeof FIXED / sizeof *FIXED; }
void run_fixed(size_t i, Ctx &c)
{
  if (c.verbose)
    c.describe("text", printable(FIXED[i].t));
  bool r = false;
  for (unsigned b = 0; b < 16; b++)
    judged(FIXED[i].t, rel::Sw::from(b), c, r);
  c.identity(FIXED[i].t);
  c.nontrivial = true;
}
