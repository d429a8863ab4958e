#include "bind.h"
using namespace pbt;
using namespace glue;
const char *const PROP_ID = "P14";
const char *const PROP_RULE =
  "Cases are the documents of P13 (any subset of the members of a struct with bases, aliases, nested structs and optional-like "
  "members, plus unknown members at every level), parsed under the 8 combinations of the two strictness switches and the "
  "tracking switch. Oracle: a table-driven model of both lists. Non-trivial: at least one list is not empty.";
void prop_init() {}

static std::string show(std::vector<std::string> v)
{
  std::string o;
  for (auto &x : v)
    o += "'" + printable(x) + "' ";
  return o;
}
static bool subset(std::vector<std::string> a, std::vector<std::string> b)
{
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  return std::includes(b.begin(), b.end(), a.begin(), a.end());
}

static void check(const ref::JV &doc, const std::string &t, Ctx &c)
{
  for (unsigned m = 0; m < 8; m++)
  {
    bind::T target;
    ref::JV want = bind::dump(target);
    bind::Lists l;
    bind::applyObj(want, doc, bind::fieldsT(), l, 0);
    Exact e(t);
    JS::ParseContext pc(e.data(), e.size());
    bool track = !(m & 4);
    // half of the time only what differs from the documented defaults is set
    const bool def = t.size() & 1;
    if ((m & 1) || !def)
      pc.allow_missing_members = !(m & 1);
    if ((m & 2) || !def)
      pc.allow_unasigned_required_members = !(m & 2);
    if (!track || !def)
      pc.track_member_assignement_state = track;
    JS::Error er = pc.parseTo(target);
    std::string mode = std::string(m & 1 ? "strict-missing " : "") + (m & 2 ? "strict-required " : "") + (track ? "" : "untracked ");
    bool failM = (m & 1) && !l.missing.empty(), failU = (m & 2) && !l.unassigned.empty();
    bool isM = er == JS::Error::MissingPropertyMember || er == JS::Error::UnknownPropertyMember;
    bool isU = er == JS::Error::UnassignedRequiredMember;
    if (!failM && !failU)
      PBT_CHECK(er == JS::Error::NoError, mode + "refused with " + errName(er) + "; unknown: " + show(l.missing) + " unassigned: " + show(l.unassigned));
    else
    {
      PBT_CHECK((failM && isM) || (failU && isU), mode + "result " + errName(er) + " although unknown: " + show(l.missing) + " unassigned: " + show(l.unassigned));
      if (!l.missing_nested)
        PBT_CHECK(er != JS::Error::UnknownPropertyMember, mode + "a top-level unknown member has its own code");
    }
    if (er == JS::Error::NoError)
    {
      std::string w;
      PBT_CHECK(ref::equal(bind::dump(target), want, true, &w), mode + "members differ at " + w);
    }
    auto gm = pc.missing_members, gu = pc.unassigned_required_members;
    if (!track)
    {
      PBT_CHECK(gm.empty() && gu.empty(), mode + "lists kept although tracking is off");
      continue;
    }
    if (er == JS::Error::NoError)
    {
      PBT_CHECK(gm.size() == l.missing.size() && subset(gm, l.missing), mode + "missing members: " + show(gm) + " expected " + show(l.missing));
      PBT_CHECK(gu.size() == l.unassigned.size() && subset(gu, l.unassigned), mode + "unassigned members: " + show(gu) + " expected " + show(l.unassigned));
    }
    else
    {
      // parsing stopped early: what is listed is true, and the cause is listed
      PBT_CHECK(subset(gm, l.missing), mode + "missing members: " + show(gm) + " not all of " + show(l.missing));
      PBT_CHECK(subset(gu, l.unassigned), mode + "unassigned members: " + show(gu) + " not all of " + show(l.unassigned));
      PBT_CHECK(isM ? !gm.empty() : !gu.empty(), mode + "the offending member is not listed");
      std::string text = pc.makeErrorString();
      if (er == JS::Error::MissingPropertyMember)
        PBT_CHECK(text.find(gm.front()) != std::string::npos, mode + "the error text does not name the member: " + text);
      if (er == JS::Error::UnassignedRequiredMember)
        for (auto &name : gu)
          PBT_CHECK(text.find(name) != std::string::npos, mode + "the error text does not name the member " + name + ": " + text);
    }
    c.nontrivial = c.nontrivial || !l.missing.empty() || !l.unassigned.empty();
    if (m == 0)
      c.label(std::string(l.missing.empty() ? "no unknown" : "unknown") + (l.unassigned.empty() ? ", all assigned" : ", some unassigned"));
  }
}

void run_case(Src &s, Ctx &c)
{
  ref::JV doc;
  if (s.chance(1, 3)) // complete or almost complete
    doc = bind::genObj(s, bind::fieldsT(), 0, s.boolean() ? 8 : 7, unsigned(s.draw(2)));
  else
    doc = bind::genT(s);
  if (s.chance(1, 3)) // complete inner objects
    for (auto &m : doc.o)
      if (m.first == "nested")
        m.second = bind::genObj(s, bind::fieldsN(), 1, 8, 0);
      else if (m.first == "list" || m.first == "dict" || m.first == "dictionary" || m.first == "ptr")
      {
        for (auto &x : m.second.a)
          x = bind::genObj(s, bind::fieldsN(), 1, 8, 0);
        if (m.first == "ptr")
          m.second = bind::genObj(s, bind::fieldsN(), 1, 8, 0);
        else
          for (auto &x : m.second.o)
            x.second = bind::genObj(s, bind::fieldsN(), 1, 8, 0);
      }
  std::string t = ref::text(s, doc, false);
  c.identity(t);
  if (c.verbose)
    c.describe("document", printable(t));
  check(doc, t, c);
}

static const char *const FIXED[] = {"{}", "{\"u\":1}", "{\"nested\":{\"u\":1}}", "{\"list\":[{\"u\":1}]}", "{\"ptr\":{\"u\":1}}", "{\"dict\":{\"k\":{\"u\":[]}}}",
                                    "{\"nested\":{}}", "{\"ptr\":null}"};
size_t fixed_count() { return sizeof FIXED / sizeof *FIXED; }
void run_fixed(size_t i, Ctx &c)
{
  ref::JV v;
  if (!ref::parse(FIXED[i], v))
    fail("HARNESS");
  c.identity(FIXED[i]);
  if (c.verbose)
    c.describe("document", FIXED[i]);
  check(v, FIXED[i], c);
}
