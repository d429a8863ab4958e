#include "jsutil.h"
using namespace pbt;
using namespace glue;
const char *const PROP_ID = "P02";
const char *const PROP_RULE =
  "Cases are random JSON documents (trees up to depth 4, sometimes hundreds deep or hundreds wide; names and strings with "
  "quotes, escapes, control characters and multi-byte text up to 80 characters; numbers of every spelling; whitespace "
  "runs up to 70) in one exactly sized buffer, either intact or damaged by 1-4 edits. A case is non-trivial when the "
  "text has at least 3 tokens, and for damaged texts when the reference parser found a structural error inside the root.";
void prop_init() {}

static void checkText(const std::string &t, Ctx &c)
{
  c.identity(t);
  if (c.verbose)
    c.describe("text", printable(t));
  ref::JV v;
  ref::Parser strict(t, false);
  bool sv = strict.value(v, false, "", 0);
  if (sv && (strict.toks[0].kind == '{' || strict.toks[0].kind == '['))
  {
    // root is valid; what follows it is not part of this document
    Read r = readAll(t, Opts(), true);
    PBT_CHECK(r.error == JS::Error::NoError, std::string("valid document refused: ") + errName(r.error));
    compareToks(r.toks, strict.toks, "valid document");
    for (size_t i = 0; i < r.toks.size(); i++)
      PBT_CHECK(strict.toks[i].named == (r.name_kinds[i] == 's'), "a quoted name must be reported as a string name");
    strict.ws();
    if (strict.p == t.size())
    {
      Read all = readAll(t);
      PBT_CHECK(all.error == JS::Error::NeedMoreData && all.roots == 1 && all.depth == 0, "text after the document");
      c.label("valid");
    }
    else
      c.label("valid root with trailing text");
    c.nontrivial = strict.toks.size() >= 3;
    return;
  }
  ref::Parser len(t, true);
  ref::JV v2;
  bool lv = len.value(v2, false, "", 0);
  len.ws();
  if (len.tolerated)
  {
    // a comma between a scalar element and the closing bracket may be accepted or refused
    Read r = readAll(t, Opts(), true);
    PBT_CHECK(lv || !r.complete(), "structurally invalid document read as complete; reference: " + len.err);
    std::vector<ref::Tok> pre(len.toks.begin(), len.toks.begin() + long(std::min(r.toks.size(), len.toks.size())));
    compareToks(r.toks, pre, "tokens");
    c.label("comma after the last scalar element");
    return;
  }
  if (t.empty() || lv)
  {
    // only lexemes are malformed (number spelling, escapes, control characters) or the root is a scalar: no claim,
    // but the structure tokens must still come out in order
    c.label("lexeme-only damage or scalar root");
    readAll(t);
    return;
  }
  Read r = readAll(t, Opts(), true);
  PBT_CHECK(!r.complete(), "structurally invalid document read as complete; reference: " + len.err + " at " +
                             std::to_string(len.p) + "; tokens " + showToks(r.toks));
  PBT_CHECK(r.error != JS::Error::NoError, "no error");
  // what was delivered before the error is a prefix of the true tokens
  PBT_CHECK(r.toks.size() <= len.toks.size(),
            "tokens beyond the point of failure: " + showToks(r.toks) + " vs " + showToks(len.toks));
  std::vector<ref::Tok> pre(len.toks.begin(), len.toks.begin() + long(r.toks.size()));
  compareToks(r.toks, pre, "tokens before the error");
  c.label(std::string("rejected: ") + len.err);
  c.nontrivial = len.toks.size() >= 2;
}

void run_case(Src &s, Ctx &c)
{
  ref::GenOpt g;
  g.unique_names = !s.chance(1, 8);
  size_t shape = s.weighted({12, 1, 1});
  ref::JV v;
  if (shape == 0)
    v = ref::genDoc(s, g);
  else if (shape == 1)
  {
    // deep nesting
    v = ref::genScalar(s, g);
    size_t d = 1 + s.draw(600);
    bool both = s.boolean();
    for (size_t i = 0; i < d; i++)
    {
      ref::JV w = (both && (i & 1)) ? ref::JV::obj() : ref::JV::arr();
      if (w.k == ref::Arr)
        w.a.push_back(std::move(v));
      else
        w.o.emplace_back("k", std::move(v));
      v = std::move(w);
    }
    c.label("deep");
  }
  else
  {
    v = ref::JV::arr();
    size_t n = 20 + s.draw(300);
    ref::JV e = ref::genValue(s, g, 2);
    for (size_t i = 0; i < n; i++)
      v.a.push_back(e);
    c.label("wide");
  }
  std::string t = ref::text(s, v);
  if (s.chance(1, 2))
    t = ref::mutate(s, t);
  checkText(t, c);
}

static const char *const FIXED[] = {
  "[foo]", "[,,1]", "[1,,2]", "{,}", "{\"a\":,}", "{\"a\"::1}", "[:1]", "[1:2]", "{\"a\" 1}", "[1 2]",
  "{\"a\":1 \"b\":2}", "[1,]", "{\"a\":1,}", "{1:2}", "{true:1}", "{\"a\"}", "{\"a\",\"b\":1}", "[}", "{]", "[1}",
  "[.5]", "{\"a\":.5}", "[_1]", "[\\1]", "[^1]", "[`1]", "[tru]", "[nulll]", "{\"a\":foo}", "[true,]", "[\"a\",]",
  "[null , ]", "[1,\n]", "[[],]", "[{},]", "{\"a\":[],}", "[", "[1", "[\"a", "{\"a\":\"b", "{\"a\":", "{\"a\"", "{",
  "[1,2,3", "[[[[", "[]", "{}", "[[]]", "[{}]", "{\"\":\"\"}", "{\"a\":{\"\":[]}}", "[\"\"]", "[true]", "[false,null]",
  "{\"a\":true}", "{\"true\":false,\"null\":null}", "[\"\\\\\"]", "[\"\\\"\"]", "{\"\\\"\":1}", "[0]", "[-0]",
  "[\x0b""1]", "[\xc3\xa9]", "[.]", "{.}", "{\"a\":.}", "{_:1}", "{.\"a\":1}", "{\"a\".:1}", "[1.,]", "{\"a\"_:1}"};
size_t fixed_count() { return sizeof FIXED / sizeof *FIXED; }
void run_fixed(size_t i, Ctx &c) { checkText(FIXED[i], c); }
