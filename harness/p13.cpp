#include "bind.h"
#include "feed.h"
using namespace pbt;
using namespace glue;
const char *const PROP_ID = "P13";
const char *const PROP_RULE =
  "Cases are object documents for a 23-member struct with a four-level base-class tree, two bases per class, renamed members, "
  "aliases (one shadowed by another member's name), nested structs, lists and maps of structs: any subset of the members, in "
  "any order, under own names or aliases, sometimes twice, mixed with unknown members (near-miss names, any shape, containing "
  "the names of known members), random whitespace, one buffer or cut, through any constructor of the context, parsed into an object with previous contents. Oracle: a "
  "table-driven model of binding. Non-trivial: at least two bound members and one absent, aliased or unknown member.";
void prop_init() {}

static void check(const ref::JV &doc, const std::string &t, bind::T &target, Feeder *f, Ctx &c, size_t how = 0)
{
  ref::JV want = bind::dump(target);
  bind::Lists l;
  bind::applyObj(want, doc, bind::fieldsT(), l, 0);
  Exact e(t);
  std::unique_ptr<JS::ParseContext> made;
  if (f || how == 0 || (how == 3 && t.find('\0') != std::string::npos))
    made.reset(new JS::ParseContext());
  else if (how == 1)
    made.reset(new JS::ParseContext(e.data(), e.size()));
  else if (how == 2)
    made.reset(new JS::ParseContext(t));
  else if (how == 3)
    made.reset(new JS::ParseContext(t.c_str()));
  else
    made.reset(new JS::ParseContext(e.data(), e.size(), target)); // parses at once
  JS::ParseContext &pc = *made;
  if (f)
    f->attach(pc.tokenizer);
  else if (how == 0 || (how == 3 && t.find('\0') != std::string::npos))
    pc.tokenizer.addData(e.data(), e.size());
  JS::Error er = !f && how == 4 ? pc.error : pc.parseTo(target);
  PBT_CHECK(er == JS::Error::NoError, std::string("document refused: ") + errName(er) + " " + pc.makeErrorString());
  ref::JV got = bind::dump(target);
  std::string w;
  PBT_CHECK(ref::equal(got, want, true, &w), "members differ at " + w + ": got " + printable(ref::text(got)) + " expected " + printable(ref::text(want)));
  size_t bound = 0, odd = l.missing.size();
  for (auto &m : doc.o)
  {
    int i = bind::resolve(bind::fieldsT(), m.first);
    bound += i >= 0;
    odd += i >= 0 && m.first != bind::fieldsT()[size_t(i)].name;
  }
  c.nontrivial = bound >= 2 && (odd || bound < bind::fieldsT().size());
}

void run_case(Src &s, Ctx &c)
{
  bind::T target;
  bind::previous(s, target);
  ref::JV doc = bind::genT(s);
  std::string t = ref::text(s, doc, false);
  std::unique_ptr<Feeder> f;
  if (s.chance(1, 5))
  {
    f.reset(new Feeder(t, genCuts(s, t)));
    f->mode = 1;
    c.label("cut");
  }
  c.identity(t);
  if (c.verbose)
  {
    c.describe("document", printable(t));
    c.describe("previous", printable(ref::text(bind::dump(target))));
  }
  check(doc, t, target, f.get(), c, s.chance(1, 3) ? s.draw(5) : 0);
}

static const char *const FIXED[] = {
  "{}", "{\"x\":1}", "{\"a\":1}", "{\"int\":1,\"a\":2}", "{\"bvec\":[1,2]}", "{\"nestedx\":{\"n\":5},\"nested\":{\"number\":6}}",
  "{\"e\":1,\"ee\":2,\"c\":\"3\",\"common\":4,\"d\":true,\"od\":5,\"rest\":6,\"a\":7,\"ab\":8,\"abc\":9,\"bv\":[10],\"bp\":11,\"i\":12}",
  "{\"u\":[[[{\"a\":1}]],{\"i\":[{}]}],\"i\":3}", "{\"u\":{\"u\":{\"u\":[]}},\"ab\":3}", "{\"u\":[],\"v\":{},\"w\":\"a\",\"c\":\"z\"}",
  "{\"list\":[{\"u\":[{}]},{\"n\":1},{}],\"e\":9}", "{\"Top::a\":1,\"\":2,\"nested\":{\"\":{\"n\":8},\"n\":4}}"};
size_t fixed_count() { return sizeof FIXED / sizeof *FIXED; }
void run_fixed(size_t i, Ctx &c)
{
  ref::JV v;
  if (!ref::parse(FIXED[i], v))
    fail("HARNESS");
  c.identity(FIXED[i]);
  if (c.verbose)
    c.describe("document", FIXED[i]);
  bind::T t;
  check(v, FIXED[i], t, nullptr, c);
}
