#include "typed.h"
#include "feed.h"
#include "relaxed.h"
using namespace pbt;
using namespace glue;
const char *const PROP_ID = "P03";
const char *const PROP_RULE =
  "Cases are strict, relaxed (all switch combinations, comments, bare words) and damaged documents without NUL bytes, cut into "
  "1 to some hundred exactly sized heap buffers (cut at random, at every byte, around structural characters, in fixed sizes, "
  "with empty buffers), delivered up front, by the callback (one, several or none per call) or after NeedMoreData; every "
  "buffer is freed in the release callback. Also documents of a 53-member struct parsed to the struct through the callback. "
  "Oracle: the same document in one buffer. Non-trivial: at least two non-empty buffers and three tokens (or members).";
void prop_init() {}

static void tokens(const std::string &t, const Opts &o, Feeder &f, Ctx &c)
{
  Read one = readAll(t, o);
  Read cut = readFed(f, o, t.size() + 1);
  compareToks(cut.toks, one.toks, "cut against whole");
  for (size_t i = 0; i < one.toks.size(); i++)
    PBT_CHECK(one.name_kinds[i] == cut.name_kinds[i], "kind of the name of token " + std::to_string(i));
  PBT_CHECK(cut.error == one.error, std::string("final status ") + errName(cut.error) + ", whole: " + std::to_string(int(one.error)));
  if (cut.error == JS::Error::NeedMoreData)
    PBT_CHECK(f.released == f.parts.size(), "not every buffer was released");
  size_t full = 0;
  for (auto &p : f.parts)
    full += !p.empty();
  c.nontrivial = full >= 2 && one.toks.size() >= 3;
  c.label(one.error == JS::Error::NeedMoreData ? (one.complete() ? "complete" : "truncated") : "refused");
}

static std::string members(Src &s, ty::U &u)
{
  ty::genSome(s, u);
  ref::JV j = ty::jv(u);
  ref::JV k = ref::JV::obj();
  for (auto &m : j.o)
    if (!s.chance(1, 2))
      k.o.push_back(m);
  if (s.chance(1, 3))
    k.o.emplace_back("unknown", ref::genValue(s, ref::GenOpt(), 2));
  return ref::text(s, k, false);
}

static void typed(Src &s, Ctx &c)
{
  ty::U u, seen, prev;
  if (s.chance(1, 3))
    ty::genSome(s, prev);
  std::string t = members(s, u);
  bool damaged = s.chance(1, 3);
  if (damaged)
  {
    t = ref::mutate(s, t);
    t.erase(std::remove(t.begin(), t.end(), '\0'), t.end());
  }
  // both targets start from the same contents
  std::string pt = JS::serializeStruct(prev, JS::SerializerOptions(JS::SerializerOptions::Compact));
  auto fresh = [&](ty::U &x) {
    JS::ParseContext pc(pt.data(), pt.size());
    PBT_CHECK(pc.parseTo(x) == JS::Error::NoError, "previous contents");
  };
  ty::U a, b;
  fresh(a);
  fresh(b);
  Exact e(t);
  JS::ParseContext p1(e.data(), e.size());
  JS::Error e1 = p1.parseTo(a);
  Feeder f(t, genCuts(s, t));
  f.mode = s.chance(1, 4) ? 0 : 1;
  f.upfront = f.mode == 0 ? f.parts.size() : s.draw(2);
  if (c.verbose)
  {
    c.describe("text", printable(t));
    c.describe("feed", f.show());
  }
  c.identity(f.show() + "|typed");
  JS::ParseContext p2;
  f.attach(p2.tokenizer);
  JS::Error e2 = p2.parseTo(b);
  if (!f.problem.empty())
    fail(f.problem);
  PBT_CHECK(e1 == e2, std::string("result ") + errName(e2) + ", whole: " + std::to_string(int(e1)));
  PBT_CHECK(damaged || e1 == JS::Error::NoError, std::string("own document refused: ") + errName(e1) + p1.makeErrorString());
  if (e1 == JS::Error::NoError)
  {
    const char *d = ty::G<ty::U>::diff(a, b);
    PBT_CHECK(!d, std::string("member ") + d + " differs");
    PBT_CHECK(p1.missing_members == p2.missing_members && p1.unassigned_required_members == p2.unassigned_required_members,
              "reported members differ");
  }
  c.nontrivial = f.parts.size() >= 2 && t.size() > 20;
  c.label(e1 == JS::Error::NoError ? "typed" : "typed, failing");
}

// a tokenizer that is given another document in the middle of one, possibly several times
static void again(Src &s, Ctx &c)
{
  Opts o = Opts::from(s.boolean() ? 0u : unsigned(s.draw(16)));
  JS::Tokenizer tk;
  o.apply(tk);
  std::vector<const char *> released, expect;
  std::function<void(const char *)> rel = [&](const char *p) { released.push_back(p); };
  tk.setReleaseCallback(rel);
  std::vector<std::unique_ptr<Exact>> keep;
  size_t rounds = 2 + s.draw(3);
  for (size_t r = 0; r < rounds; r++)
  {
    std::string t = ref::text(s, ref::genDoc(s));
    if (s.chance(1, 3))
      t = ref::mutate(s, t);
    t.erase(std::remove(t.begin(), t.end(), '\0'), t.end());
    std::string lead = s.chance(1, 3) ? std::string(1 + s.draw(20), s.boolean() ? '{' : 'x') : std::string();
    size_t first = s.chance(1, 3) ? s.draw(t.size() + 1) : t.size(); // the rest arrives in further buffers
    std::vector<std::string> parts;
    parts.push_back(lead + t.substr(0, first));
    for (size_t i = first; i < t.size();)
    {
      size_t n = 1 + s.draw(t.size() - i);
      parts.push_back(t.substr(i, n));
      i += n;
    }
    c.identity(t + "|" + lead);
    if (c.verbose)
      c.describe("document", printable(lead) + "^" + printable(t) + fmt(" in %zu buffers", parts.size()));
    size_t known = released.size();
    for (size_t i = 0; i < parts.size(); i++)
    {
      keep.emplace_back(new Exact(parts[i]));
      if (i == 0)
      {
        tk.resetData(keep.back()->data(), keep.back()->size(), lead.size());
        // everything that was registered before is given back, in order
        PBT_CHECK(released.size() == expect.size(), fmt("resetData: %zu buffers given back, %zu registered", released.size(), expect.size()));
        PBT_CHECK(tk.registeredBuffers() == 1, "resetData: other buffers stay registered");
      }
      else
        tk.addData(keep.back()->data(), keep.back()->size());
      expect.push_back(keep.back()->data());
    }
    (void)known;
    Read one = readAll(t, o);
    size_t stop = s.boolean() ? one.toks.size() + 1 : s.draw(one.toks.size() + 1);
    for (size_t i = 0; i < stop; i++)
    {
      JS::Token tok;
      JS::Error er = tk.nextToken(tok);
      if (i == one.toks.size())
      {
        PBT_CHECK(er == one.error, fmt("document %zu: final status %d, alone %d", r, int(er), int(one.error)));
        break;
      }
      PBT_CHECK(er == JS::Error::NoError, fmt("document %zu, token %zu: error %d, read alone there is none", r, i, int(er)));
      PBT_CHECK(std::string(tok.name.data, tok.name.size) == one.toks[i].name && std::string(tok.value.data, tok.value.size) == one.toks[i].value,
                fmt("document %zu, token %zu: ", r, i) + printable(std::string(tok.value.data, tok.value.size)) + ", read alone: " + printable(one.toks[i].value));
    }
    c.nontrivial = c.nontrivial || (r > 0 && stop >= 3);
    for (size_t i = 0; i < released.size(); i++)
      PBT_CHECK(i < expect.size() && released[i] == expect[i], fmt("document %zu: release %zu is not the next buffer", r, i));
  }
  c.label("another document");
}

void run_case(Src &s, Ctx &c)
{
  if (s.chance(1, 12))
    return again(s, c);
  size_t kind = s.weighted({4, 3, 3, 3});
  if (kind == 3)
    return typed(s, c);
  std::string t;
  Opts o;
  if (kind == 1)
  {
    rel::Sw on = rel::Sw::from(unsigned(s.draw(16)));
    ref::GenOpt g;
    g.depth = 3;
    rel::Printer p(s, on);
    t = p.document(ref::genDoc(s, g)).text;
    o = Opts::from(s.chance(3, 4) ? on.bits() : unsigned(s.draw(16)));
  }
  else
  {
    t = ref::text(s, ref::genDoc(s));
    if (s.chance(1, 4))
      o = Opts::from(unsigned(s.draw(16)));
  }
  if (kind == 2 || s.chance(1, 4))
    t = ref::mutate(s, t);
  if (s.chance(1, 12))
    t += ref::text(s, ref::genDoc(s)); // a second document
  t.erase(std::remove(t.begin(), t.end(), '\0'), t.end());
  Feeder f(t, genCuts(s, t));
  f.plan(s);
  if (c.verbose)
  {
    c.describe("text", printable(t));
    c.describe("switches", o.show());
    c.describe("feed", f.show());
  }
  c.identity(o.show() + f.show());
  tokens(t, o, f, c);
}

struct F { unsigned sw; const char *t; };
static const F FIXED[] = {{0, "{\"name\":\"va\\\"lue\\\\\",\"n\":-12.5e+3,\"t\":true,\"f\":[false,null,{}],\"\":\"\"}"},
                          {8, "{ // c\n\"a\" // d\n: // e\n1 // f\n, // g\n\"b\":[2 // h\n,3]} // i\n"},
                          {15, "{name:word//c\nb:[x\ny,]\n}"}, {0, "{\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\\\\\\\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\":\"bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb\\\\\"}"},
                          {0, "[123456789012345678901234567890,true,false,null,\"\\u00e9\"]"}, {0, "{\"a\":1 \"b\":2}"},
                          {0, "[tru]"}, {0, "[1,,2]"}, {8, "[1 /x]"}, {8, "{/"}, {0, "{\"a\":]"}, {0, "[}"}, {0, "{\"a\" 1}"}, {0, "{1:2}"},
                          {0, "{\"a\":tru}"}, {0, "{a:1}"}, {0, "[foo]"}, {1, "{a:b}"}, {1, "[foo,bar]"}, {0, "[1.5.5]"}, {2, "[1\n,2]"}};
size_t fixed_count() { return sizeof FIXED / sizeof *FIXED; }
void run_fixed(size_t i, Ctx &c)
{
  // every single cut, every pair of cuts, every delivery mode
  std::string t = FIXED[i].t;
  if (c.verbose)
    c.describe("text", printable(t));
  c.identity(t);
  for (size_t a = 0; a <= t.size(); a++)
    for (size_t b = a; b <= t.size(); b++)
    {
      if (t.size() > 90 && b != a && b != t.size() && (b - a) > 3)
        continue;
      for (unsigned m = 0; m < 4; m++)
      {
        Feeder f(t, {a, b});
        f.mode = m;
        f.upfront = m == 0 ? 3 : 0;
        if (c.verbose)
          c.describe("feed", f.show());
        tokens(t, Opts::from(FIXED[i].sw), f, c);
        if (c.verbose)
          c.desc.clear();
      }
    }
  c.nontrivial = true;
}
