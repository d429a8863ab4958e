#define JS_STL_MAP 1
#define JS_STL_SET 1
#define JS_STL_ARRAY 1
#include <array>
#include <map>
#include <set>
#include "feed.h"
#include "bind.h"
using namespace pbt;
using namespace glue;
typedef ref::JV JV;
const char *const PROP_ID = "P25";
const char *const PROP_RULE =
  "Cases are (a) documents with one character inserted at a token boundary or otherwise damaged, read token by token; (b) documents "
  "whose error is set by the caller after some token; (c) struct documents with one unsuitable value, unknown or missing members at a "
  "random depth; (d) histories of good and bad documents on one context; all with any line structure, excerpt settings and buffer cuts, "
  "or from recorded tokens. Oracle: the offset of the damage or of the unsuitable value in the text, the expected code for unambiguous "
  "errors, the error names, and a fresh context for histories. Non-trivial: an error was reported and its excerpt located in the input.";
void prop_init() {}

static const char *nameOf(JS::Error e)
{
#define N(x) case JS::Error::x: return #x
  switch (e)
  {
    N(NoError); N(NeedMoreData); N(InvalidToken); N(ExpectedPropertyName); N(ExpectedDelimiter); N(ExpectedDataToken);
    N(ExpectedObjectStart); N(ExpectedObjectEnd); N(ExpectedArrayStart); N(ExpectedArrayEnd); N(UnexpectedArrayEnd);
    N(UnexpectedObjectEnd); N(IllegalPropertyName); N(IllegalPropertyType); N(IllegalDataValue); N(EncounteredIllegalChar);
    N(NodeNotFound); N(MissingPropertyMember); N(MissingFunction); N(FailedToParseBoolean); N(FailedToParseDouble);
    N(FailedToParseFloat); N(FailedToParseInt); N(UnassignedRequiredMember); N(NonContigiousMemory); N(ScopeHasEnded);
    N(KeyNotFound); N(DuplicateInSet); N(UnknownPropertyMember); N(UnknownError);
  default: return "";
  }
#undef N
}
static const std::vector<JS::Error> allErrors = {
  JS::Error::InvalidToken, JS::Error::ExpectedPropertyName, JS::Error::ExpectedDelimiter, JS::Error::ExpectedDataToken,
  JS::Error::ExpectedObjectStart, JS::Error::ExpectedObjectEnd, JS::Error::ExpectedArrayStart, JS::Error::ExpectedArrayEnd,
  JS::Error::UnexpectedArrayEnd, JS::Error::UnexpectedObjectEnd, JS::Error::IllegalPropertyName, JS::Error::IllegalPropertyType,
  JS::Error::IllegalDataValue, JS::Error::EncounteredIllegalChar, JS::Error::NodeNotFound, JS::Error::MissingPropertyMember,
  JS::Error::MissingFunction, JS::Error::FailedToParseBoolean, JS::Error::FailedToParseDouble, JS::Error::FailedToParseFloat,
  JS::Error::FailedToParseInt, JS::Error::UnassignedRequiredMember, JS::Error::NonContigiousMemory, JS::Error::ScopeHasEnded,
  JS::Error::KeyNotFound, JS::Error::DuplicateInSet, JS::Error::UnknownPropertyMember, JS::Error::UnknownError, JS::Error::UserDefinedErrors};

// ---------------------------------------------------------------- excerpts
// every offset in the document that the excerpt and its mark can denote
static std::vector<size_t> located(const std::string &doc, const JS::Internal::ErrorContext &ec, const std::string &what)
{
  PBT_CHECK(!ec.lines.empty(), what + ": no excerpt");
  PBT_CHECK(ec.line < ec.lines.size(), what + ": the marked line is not part of the excerpt");
  PBT_CHECK(ec.character <= ec.lines[ec.line].size(), what + fmt(": the marked column %zu lies outside the line of %zu characters", ec.character, ec.lines[ec.line].size()));
  std::string j;
  size_t at = 0;
  for (size_t i = 0; i < ec.lines.size(); i++)
  {
    PBT_CHECK(ec.lines[i].find('\n') == std::string::npos, what + ": a line of the excerpt holds a line break");
    if (i)
      j += '\n';
    if (i == ec.line)
      at = j.size() + ec.character;
    j += ec.lines[i];
  }
  std::vector<size_t> r;
  for (size_t p = doc.find(j); p != std::string::npos; p = doc.find(j, p + 1))
    r.push_back(p + at);
  PBT_CHECK(!r.empty(), what + ": the excerpt is not part of the input: " + printable(j));
  return r;
}
static void window(const std::vector<size_t> &m, size_t lo, size_t hi, const std::string &what)
{
  for (size_t x : m)
    if (x >= lo && x <= hi)
      return;
  fail(what + fmt(": marks offset %zu, the error is at %zu..%zu", m[0], lo, hi));
}
static void message(const std::string &msg, const JS::Internal::ErrorContext &ec, JS::Error e, const std::string &custom, const std::string &what)
{
  PBT_CHECK(ec.error == e, what + ": the error context holds " + errName(ec.error) + ", the error is " + errName(e));
  PBT_CHECK(msg.find(nameOf(e)) != std::string::npos, what + ": the message does not name " + nameOf(e) + ": " + printable(msg));
  for (JS::Error o : allErrors)
    if (o != e && nameOf(o)[0] && !strstr(nameOf(e), nameOf(o)))
      PBT_CHECK(msg.find(std::string("Error ") + nameOf(o) + ":") != 0, what + ": the message names another error: " + printable(msg));
  PBT_CHECK(msg.find(custom) != std::string::npos, what + ": the message lacks the text given with the error: " + printable(msg));
  PBT_CHECK(ec.custom_message == custom, what + ": the text given with an earlier error stays: " + printable(ec.custom_message));
  std::string part;
  for (size_t i = 0; i < ec.lines.size(); i++)
  {
    part += ec.lines[i] + "\n";
    if (i == ec.line)
      part += std::string(ec.character, ' ') + "^\n";
  }
  PBT_CHECK(msg.find(part) != std::string::npos, what + ": the message does not show the excerpt with its mark: " + printable(msg));
}

// documents with a chosen density of line breaks
static std::string lineText(Src &s, const JV &v, bool spell_names)
{
  std::string t = ref::text(s, v, spell_names);
  unsigned mode = unsigned(s.draw(4));
  if (!mode)
    return t;
  std::vector<ref::Tok> toks;
  JV tmp;
  std::string err;
  PBT_CHECK(ref::parse(t, tmp, &err, &toks), "generator: " + err);
  std::string o;
  size_t p = 0;
  for (auto &k : toks)
  {
    size_t b = k.kind == 's' ? k.begin - 1 : k.begin;
    if (b < p)
      continue;
    o += t.substr(p, b - p);
    p = b;
    if (mode == 1 ? s.chance(1, 3) : mode == 2 ? true : s.chance(1, 20))
      o += s.chance(1, 6) ? "\r\n" : s.chance(1, 8) ? "\n\n" : "\n";
    if (s.chance(1, 12))
      o += std::string(s.draw(60), ' ');
    if (mode == 3 && s.chance(1, 40))
      o += std::string(200 + s.draw(200), ' ');
  }
  o += t.substr(p);
  if (s.chance(1, 4))
    o = "\n" + o;
  if (s.chance(1, 4))
    o += "\n";
  return o;
}
static void config(Src &s, JS::Tokenizer &t, std::string &d)
{
  if (s.chance(1, 2))
    return;
  size_t l = s.draw(7), r = s.chance(1, 8) ? s.draw(1000) : s.draw(60);
  t.setErrorContextConfig(l, r);
  d += fmt(" excerpt(%zu,%zu)", l, r);
}

// ---------------------------------------------------------------- (a), (b)
static void tokens(Src &s, Ctx &c)
{
  ref::GenOpt g;
  g.depth = int(1 + s.draw(6));
  JV v = ref::genDoc(s, g);
  std::string t = lineText(s, v, true);
  std::vector<ref::Tok> toks;
  JV tmp;
  std::string err;
  PBT_CHECK(ref::parse(t, tmp, &err, &toks), "generator: " + err);
  size_t k = s.draw(toks.size());
  unsigned how = unsigned(s.draw(3));
  std::string d = t;
  size_t at = 0;
  JS::Error expect = JS::Error::NoError;
  if (how == 0)
  {
    // one stray character after token k (never after the last one: text behind the document is not read)
    if (toks.size() < 2)
      return;
    k = s.draw(toks.size() - 1);
    size_t e = toks[k].begin + toks[k].value.size();
    if (toks[k].kind == 's')
      e++;
    static const char *const stray[] = {"]", "}", ":", ";", "@", "=", "&", "!", ")", "\x01", "*"};
    std::string x = stray[s.draw(11)];
    d.insert(e, x);
    at = e;
    JV q;
    if (ref::parse(d, q, &err))
      return;
    // the innermost container after token k
    std::string st;
    for (size_t i = 0; i <= k; i++)
    {
      if (strchr("{[", toks[i].kind))
        st += toks[i].kind;
      if (strchr("}]", toks[i].kind))
        st.pop_back();
    }
    if (x == "]" && !st.empty() && st.back() == '{')
      expect = JS::Error::UnexpectedArrayEnd;
    if (x == "}" && !st.empty() && st.back() == '[')
      expect = JS::Error::UnexpectedObjectEnd;
    // a closing bracket of the right kind only moves the error to the place where the text stops making sense
    if (expect == JS::Error::NoError && (x == "]" || x == "}"))
      return;
    c.label("stray character");
  }
  else if (how == 1)
  {
    d = ref::mutate(s, t);
    c.label("damaged");
  }
  else
    c.label("set by the caller");
  std::vector<size_t> cuts;
  if (s.chance(1, 3))
    cuts = genCuts(s, d);
  Feeder f(d, cuts);
  f.plan(s);
  c.identity(d);
  JS::Tokenizer tk;
  std::string desc = how == 2 ? fmt("set after token %zu", k) : "";
  config(s, tk, desc);
  if (c.verbose)
    c.describe("document", printable(d) + " " + desc + " " + f.show());
  f.attach(tk);
  JS::Token tok;
  JS::Error er = JS::Error::NoError;
  size_t n = 0;
  while (true)
  {
    er = tk.nextToken(tok);
    if (er == JS::Error::NeedMoreData && f.add(tk))
      continue;
    if (er != JS::Error::NoError)
      break;
    PBT_CHECK(tk.errorContext().error == JS::Error::NoError, "the error context holds an error after a good token");
    if (how == 2 && n == k)
      break;
    if (++n > d.size() + 1)
      fail("more tokens than characters");
  }
  if (how == 2)
  {
    PBT_CHECK(er == JS::Error::NoError && n == k, std::string("a valid document is refused with ") + errName(er));
    size_t lo = toks[k].begin, hi = k + 1 < toks.size() ? toks[k + 1].begin : d.size();
    unsigned times = 1 + unsigned(s.draw(2));
    for (unsigned i = 0; i < times; i++)
    {
      JS::Error e = s.pick(allErrors);
      std::string custom = s.boolean() ? std::string() : "the text <" + std::to_string(s.draw(1000)) + ">";
      PBT_CHECK(tk.updateErrorContext(e, custom) == e, "updateErrorContext returns another error");
      if (tk.registeredBuffers() == 0)
        return;
      message(tk.makeErrorString(), tk.errorContext(), e, custom, "set error");
      window(located(d, tk.errorContext(), "set error"), lo, hi, "set error");
      c.nontrivial = true;
    }
    // and it is gone with the next token
    er = tk.nextToken(tok);
    while (er == JS::Error::NeedMoreData && f.add(tk))
      er = tk.nextToken(tok);
    if (er == JS::Error::NoError)
      PBT_CHECK(tk.errorContext().error == JS::Error::NoError && tk.errorContext().lines.empty() && tk.errorContext().custom_message.empty(), "an error that was set stays after the next token");
    return;
  }
  if (er == JS::Error::NeedMoreData)
  {
    if (how == 0)
      PBT_CHECK(false, "a stray character is not noticed");
    return;
  }
  PBT_CHECK(er != JS::Error::NoError, "no error");
  c.nontrivial = true;
  message(tk.makeErrorString(), tk.errorContext(), er, "", "tokens");
  std::vector<size_t> m = located(d, tk.errorContext(), "tokens");
  if (how == 0)
  {
    if (getenv("P25_TRACE"))
      fprintf(stderr, "stray %s: %d at %zu marks %zu\n", printable(d.substr(at, 1)).c_str(), int(er), at, m[0]);
    if (expect != JS::Error::NoError)
      PBT_CHECK(er == expect || er == JS::Error::ExpectedDelimiter, std::string("expected ") + nameOf(expect) + ", got " + nameOf(er));
    window(m, at, at + 1, std::string("tokens, ") + nameOf(er));
  }
}

// ---------------------------------------------------------------- (c)
namespace e25
{
JS_ENUM(En, one, two, three);
struct Leaf
{
  int i = 0;
  double d = 0;
  float f = 0;
  bool b = false;
  JS_OBJ(i, d, f, b);
};
struct E
{
  int64_t i = 0;
  uint8_t u = 0;
  double d = 0;
  float f = 0;
  bool b = false;
  std::vector<int> v;
  Leaf st;
  std::map<std::string, int> m;
  std::set<int> s;
  std::array<int, 2> a;
  En en = En::one;
  JS::Nullable<int> n;
  std::unique_ptr<int> p;
  std::vector<E> kids;
  JS_OBJ(i, u, d, f, b, v, st, m, s, a, en, n, p, kids);
};
} // namespace e25
JS_ENUM_NAMESPACE_DECLARE_STRING_PARSER(e25, En);
using e25::E;

static const char *const kMembers[] = {"i", "u", "d", "f", "b", "v", "st", "m", "s", "a", "en", "n", "p"};
static JV num(Src &s) { return JV::num(int64_t(s.draw(100))); }
static JV leaf(Src &s)
{
  JV o = JV::obj();
  o.o = {{"i", num(s)}, {"d", num(s)}, {"f", num(s)}, {"b", JV::boolean(s.boolean())}};
  return o;
}
static JV goodValue(Src &s, const std::string &m)
{
  if (m == "b")
    return JV::boolean(s.boolean());
  if (m == "en")
  {
    JV v = JV::str(s.boolean() ? "one" : "three");
    v.tag = 'r'; // no escapes: enumerators are matched by their raw text
    return v;
  }
  if (m == "st")
    return leaf(s);
  JV a = JV::arr(), o = JV::obj();
  size_t n = m == "a" ? 2 : s.draw(4);
  for (size_t i = 0; i < n; i++)
  {
    a.a.push_back(m == "s" ? JV::num(int64_t(i * 100 + s.draw(50))) : num(s));
    o.o.push_back({"k" + std::to_string(i), num(s)});
  }
  if (m == "v" || m == "s" || m == "a")
    return a;
  if (m == "m")
    return o;
  return num(s);
}
static JV genE(Src &s, int depth)
{
  JV o = JV::obj();
  std::vector<std::string> order(kMembers, kMembers + 13);
  order.push_back("kids");
  for (size_t i = order.size(); i > 1; i--)
    std::swap(order[i - 1], order[s.draw(i)]);
  for (auto &m : order)
    if (m != "kids")
      o.o.push_back({m, goodValue(s, m)});
    else
    {
      JV k = JV::arr();
      if (depth < 3)
        for (size_t n = s.draw(3); n; n--)
          k.a.push_back(genE(s, depth + 1));
      o.o.push_back({m, k});
    }
  return o;
}
// number of tokens before the value at p; false if it is not inside v
static bool tokenIndex(const JV &v, const JV *p, size_t &n)
{
  if (&v == p)
    return true;
  n++;
  for (auto &x : v.a)
    if (tokenIndex(x, p, n))
      return true;
  for (auto &x : v.o)
    if (tokenIndex(x.second, p, n))
      return true;
  if (v.k == ref::Obj || v.k == ref::Arr)
    n++;
  return false;
}
static size_t tokenCount(const JV &v)
{
  size_t n = 0;
  tokenIndex(v, nullptr, n);
  return n;
}
// replaces a scalar or container by something its place cannot hold
static JS::Error spoil(Src &s, JV &v, const std::string &m)
{
  static const char *const words[] = {"abc", "x y", "", "nul", "truE", "[", "--"};
  JV scalar = s.boolean() ? JV::str(words[s.draw(7)]) : s.boolean() ? JV::boolean(s.boolean()) : JV::arr();
  if (s.chance(1, 4))
  {
    scalar = JV::obj();
    if (s.boolean())
      scalar.o.push_back({"i", num(s)});
  }
  JV nonarray = s.boolean() ? num(s) : s.boolean() ? JV::str("abc") : JV::obj();
  JV nonobject = s.boolean() ? num(s) : s.boolean() ? JV::str("abc") : JV::arr();
  if (m == "i" || m == "u" || m == "n" || m == "p" || m == "elem")
  {
    v = scalar;
    return JS::Error::FailedToParseInt;
  }
  if (m == "d" || m == "f")
  {
    v = scalar;
    return m == "d" ? JS::Error::FailedToParseDouble : JS::Error::FailedToParseFloat;
  }
  if (m == "b")
  {
    v = s.boolean() ? num(s) : s.boolean() ? JV::str(words[s.draw(7)]) : s.boolean() ? JV::null() : JV::arr();
    return JS::Error::FailedToParseBoolean;
  }
  if (m == "v" || m == "s" || m == "a" || m == "kids")
  {
    v = nonarray;
    return JS::Error::ExpectedArrayStart;
  }
  if (m == "st" || m == "m" || m == "kid")
  {
    v = nonobject;
    return JS::Error::ExpectedObjectStart;
  }
  v = s.boolean() ? JV::str("four") : JV::boolean(true);
  return JS::Error::NoError; // some error
}
static void typed(Src &s, Ctx &c)
{
  JV doc = genE(s, 0);
  JV *o = &doc;
  size_t depth = 0;
  while (true)
  {
    JV *k = nullptr;
    for (auto &x : o->o)
      if (x.first == "kids" && !x.second.a.empty())
        k = &x.second.a[s.draw(x.second.a.size())];
    if (!k || s.chance(1, 3))
      break;
    o = k;
    depth++;
  }
  unsigned how = unsigned(s.weighted({6, 1, 1}));
  JV *bad = nullptr;
  JS::Error expect = JS::Error::NoError;
  std::string name, unknown;
  if (how == 0)
  {
    auto &mem = o->o[s.draw(o->o.size())];
    name = mem.first;
    bad = &mem.second;
    if (bad->k == ref::Arr && !bad->a.empty() && s.boolean())
    {
      bad = &bad->a[s.draw(bad->a.size())];
      name = name == "kids" ? "kid" : "elem";
    }
    else if ((name == "m" || name == "st") && !bad->o.empty() && s.boolean())
    {
      auto &l = bad->o[s.draw(bad->o.size())];
      name = name == "m" ? "elem" : l.first;
      bad = &l.second;
    }
    expect = spoil(s, *bad, name);
  }
  else if (how == 1)
  {
    unknown = "unknown" + std::to_string(s.draw(50));
    o->o.insert(o->o.begin() + long(s.draw(o->o.size() + 1)), {unknown, num(s)});
    expect = JS::Error::MissingPropertyMember;
  }
  else
  {
    size_t i = s.draw(o->o.size());
    while (o->o[i].first == "p")
      i = s.draw(o->o.size());
    unknown = o->o[i].first;
    o->o.erase(o->o.begin() + long(i));
    expect = JS::Error::UnassignedRequiredMember;
  }
  std::string t = lineText(s, doc, false);
  std::vector<ref::Tok> toks;
  JV tmp;
  std::string err;
  PBT_CHECK(ref::parse(t, tmp, &err, &toks), "generator: " + err);
  std::vector<size_t> cuts;
  unsigned in = unsigned(s.draw(4));
  if (in == 1)
    cuts = genCuts(s, t);
  Feeder f(t, cuts);
  f.plan(s);
  if (f.mode >= 2)
    f.mode = 0, f.upfront = f.parts.size();
  c.identity(t);
  std::string desc = "bad " + name + " " + unknown;
  JS::ParseContext pc;
  config(s, pc.tokenizer, desc);
  if (how == 1)
    pc.allow_missing_members = false;
  if (how == 2)
    pc.allow_unasigned_required_members = false;
  bool track = !(how && s.chance(1, 4));
  pc.track_member_assignement_state = track;
  if (c.verbose)
    c.describe("document", desc + " input " + std::to_string(in) + ": " + printable(t));
  JS::JsonTokens rec;
  Exact e(t);
  if (in == 2)
  {
    JS::ParseContext rp(e.data(), e.size());
    PBT_CHECK(rp.parseTo(rec) == JS::Error::NoError, "cannot record the tokens");
    pc.tokenizer.addData(&rec.data);
  }
  else
    f.attach(pc.tokenizer);
  E x;
  JS::Error er = pc.parseTo(x);
  PBT_CHECK(er != JS::Error::NoError, "an unsuitable document is accepted");
  PBT_CHECK(pc.error == er, "the context does not hold the returned error");
  std::string msg = pc.makeErrorString();
  PBT_CHECK(!msg.empty(), "no message");
  if (getenv("P25_TRACE"))
    fprintf(stderr, "%s: %s %s\n", desc.c_str(), nameOf(er), bad ? printable(ref::text(*bad)).c_str() : "");
  if (how == 1 && depth)
    expect = JS::Error::UnknownPropertyMember;
  if (expect != JS::Error::NoError)
    PBT_CHECK(er == expect, std::string("expected ") + nameOf(expect) + ", got " + nameOf(er));
  c.label(nameOf(er));
  if (how)
  {
    if (er == JS::Error::UnknownPropertyMember || !track)
      PBT_CHECK(msg.find(nameOf(er)) != std::string::npos, "the message does not name the error: " + printable(msg));
    else
      PBT_CHECK(msg.find(unknown) != std::string::npos, "the message does not name the member " + unknown + ": " + printable(msg));
    auto &l = how == 1 ? pc.missing_members : pc.unassigned_required_members;
    if (!track)
      PBT_CHECK(l.empty(), "members are listed that are not to be tracked");
    else
      PBT_CHECK(l.size() == 1 && l[0] == unknown, "the list does not hold exactly the member " + unknown);
    c.nontrivial = true;
    return;
  }
  const JS::Internal::ErrorContext &ec = pc.tokenizer.errorContext();
  if (pc.tokenizer.registeredBuffers() == 0 && in != 2)
    return;
  if (in == 2 && ec.lines.empty())
  {
    PBT_CHECK(msg.find(nameOf(er)) != std::string::npos, std::string("the message does not name ") + nameOf(er) + ": " + printable(msg));
    return;
  }
  message(msg, ec, er, "", "parseTo");
  std::vector<size_t> m = located(t, ec, "parseTo");
  size_t k = 0;
  PBT_CHECK(tokenIndex(doc, bad, k), "generator: token");
  size_t last = k + tokenCount(*bad);
  size_t lo = toks[k].begin, hi = last < toks.size() ? toks[last].begin : t.size();
  if (lo && in == 2)
    lo--;
  window(m, lo, hi, std::string("parseTo, ") + nameOf(er));
  c.nontrivial = true;
}

// ---------------------------------------------------------------- (d)
struct Out
{
  JS::Error error = JS::Error::NoError;
  std::string text;
  std::vector<std::string> lines, missing, unassigned;
  size_t line = 0, ch = 0;
  std::string custom;
  JV state;
  bool operator==(const Out &o) const
  {
    return error == o.error && text == o.text && lines == o.lines && missing == o.missing && unassigned == o.unassigned && line == o.line &&
           ch == o.ch && custom == o.custom;
  }
  std::string show() const
  {
    std::string r = std::string(nameOf(error)) + " '" + printable(text) + "' missing";
    for (auto &m : missing)
      r += " " + m;
    r += " unassigned";
    for (auto &m : unassigned)
      r += " " + m;
    return r;
  }
};
static Out parseWith(JS::ParseContext &pc)
{
  bind::T t;
  Out o;
  o.error = pc.parseTo(t);
  o.text = pc.makeErrorString();
  const JS::Internal::ErrorContext &ec = pc.tokenizer.errorContext();
  o.lines = ec.lines;
  o.line = ec.line;
  o.ch = ec.character;
  o.custom = ec.custom_message;
  o.missing = pc.missing_members;
  o.unassigned = pc.unassigned_required_members;
  return o;
}
static void history(Src &s, Ctx &c)
{
  JS::ParseContext pc;
  pc.allow_missing_members = s.boolean();
  pc.allow_unasigned_required_members = s.chance(2, 3);
  size_t n = 2 + s.draw(4);
  bool failed = false;
  for (size_t i = 0; i < n; i++)
  {
    JV doc = bind::genT(s);
    std::string t = lineText(s, doc, false);
    unsigned how = unsigned(s.draw(4));
    if (how == 0)
      t = ref::mutate(s, t);
    else if (how == 1 && t.size() > 2)
      t.resize(1 + s.draw(t.size() - 2));
    c.identity(t);
    if (c.verbose)
      c.describe("document", printable(t));
    Exact e(t);
    JS::ParseContext fresh;
    fresh.allow_missing_members = pc.allow_missing_members;
    fresh.allow_unasigned_required_members = pc.allow_unasigned_required_members;
    JS::JsonTokens rec;
    std::unique_ptr<Exact> again(new Exact(t));
    bool recorded = false;
    if (s.chance(1, 4))
    {
      JS::ParseContext rp(again->data(), again->size());
      recorded = rp.parseTo(rec) == JS::Error::NoError && !rec.data.empty();
    }
    if (recorded)
    {
      pc.tokenizer.resetData(&rec.data, 0);
      fresh.tokenizer.resetData(&rec.data, 0);
    }
    else
    {
      pc.tokenizer.resetData(again->data(), again->size(), 0);
      fresh.tokenizer.addData(e.data(), e.size());
    }
    Out a = parseWith(pc), b = parseWith(fresh);
    PBT_CHECK(a == b, fmt("document %zu: a used context reports ", i) + a.show() + ", a fresh one " + b.show());
    if (a.error == JS::Error::NoError)
      PBT_CHECK(a.lines.empty() && a.custom.empty() && pc.tokenizer.errorContext().error == JS::Error::NoError, "an error is reported for a good document");
    else
      PBT_CHECK(!a.text.empty(), "no message");
    if (failed && a.error == JS::Error::NoError)
      c.nontrivial = true;
    if (a.error != JS::Error::NoError)
      failed = true;
    pc.tokenizer.resetData("", 0, 0);
  }
}
void run_case(Src &s, Ctx &c)
{
  switch (s.weighted({4, 4, 2}))
  {
  case 0: tokens(s, c); break;
  case 1: typed(s, c); break;
  default: c.label("history"); history(s, c);
  }
}
size_t fixed_count() { return 0; }
void run_fixed(size_t, Ctx &) {}
