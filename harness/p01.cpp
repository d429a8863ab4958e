#include "shape.h"
#include "feed.h"
#include "relaxed.h"
#include "bind.h"
using namespace pbt;
using namespace glue;
typedef ref::JV JV;
const char *const PROP_ID = "P01";
const char *const PROP_RULE =
  "Cases are byte sequences (arbitrary bytes, JSON-like alphabets, documents made for the target with bytes changed, inserted, removed, "
  "repeated or cut, relaxed syntax, extreme numbers, malformed escapes, long runs, deep nesting) cut into exactly sized heap buffers that "
  "are freed when released, with each of the 16 syntax switch combinations, given to: the tokenizer, the 49 target types of P15 (bare and "
  "as a member, also twice), a class hierarchy, the dynamic map with conversions and edits, function calls, token recordings with their "
  "index, and reformatting; reading goes on after errors. Oracle: address and undefined-behaviour sanitizers, library assertions, a CPU "
  "watchdog, the number of tokens against the number of bytes, and an error text for every failure. Non-trivial: at least two bytes that "
  "are not a valid document, or input cut into several buffers.";
void prop_init() {}

// ---------------------------------------------------------------- bytes
static std::string number(Src &s)
{
  std::string o;
  if (s.chance(1, 3))
    o += s.boolean() ? "-" : "+";
  static const unsigned len[] = {0, 1, 2, 5, 9, 10, 17, 18, 19, 20, 21, 25, 40, 320, 800};
  for (unsigned n = len[s.draw(15)]; n; n--)
    o += char('0' + (s.chance(1, 3) ? 0 : s.draw(10)));
  if (s.chance(1, 2))
  {
    o += '.';
    for (unsigned n = len[s.draw(15)]; n; n--)
      o += char('0' + (s.chance(1, 3) ? 0 : s.draw(10)));
  }
  if (s.chance(1, 2))
  {
    o += s.boolean() ? "e" : "E";
    if (s.chance(2, 3))
      o += s.boolean() ? "-" : "+";
    static const char *const ex[] = {"", "0", "1", "9", "22", "37", "38", "39", "45", "127", "307", "308", "309", "323", "324", "325", "400", "999", "2147483647", "2147483648", "4294967296", "9223372036854775807", "99999999999999999999999999"};
    o += ex[s.draw(23)];
  }
  if (s.chance(1, 12))
    o += s.pick({".", "e", "-", "+", "x", "1.1", "e5", "..", "inf", "nan"});
  return o;
}
static std::string strange(Src &s)
{
  static const char *const e[] = {"\\", "\\u", "\\u1", "\\u12", "\\u123", "\\uD83D", "\\uD83D\\", "\\uD83D\\u", "\\uD83D\\uDE0", "\\uD83D\\uDE00", "\\uDE00", "\\uD83Dx", "\\u0000", "\\ud83d\\u0041", "\\x", "\\\"", "\\\\", "\"", "\xff", "\xc3", "\xed\xa0\x80", "\x01", "\t", "/", "//", "/*", "\n", "\r", "'"};
  std::string o = "\"";
  for (size_t n = s.size(30); n; n--)
    o += s.chance(1, 3) ? std::string(e[s.draw(29)]) : s.chance(1, 8) ? std::string(1, '\0') : std::string(1, char('a' + s.draw(26)));
  if (!s.chance(1, 10))
    o += "\"";
  return o;
}
static std::string piece(Src &s)
{
  static const char *const k[] = {"{", "}", "[", "]", ",", ":", "\"", " ", "\n", "true", "false", "null", "\"a\"", "\"v\"", "\"i\"", "\"after\"", "1", "{\"v\":", "[[", "]]", "{}", "[]", "//", "// c\n", "/", "\\", "tru", "word", "wo-rd", "-", "\"\"", ",,", "::", "\r\n", "\t"};
  switch (s.draw(12))
  {
  case 0: return number(s);
  case 1: return strange(s);
  case 2: return std::string(1, char(s.draw(256)));
  default: return k[s.draw(35)];
  }
}
static std::string damage(Src &s, std::string t)
{
  size_t n = s.size(5);
  for (size_t i = 0; i < n; i++)
  {
    size_t p = s.draw(t.size() + 1);
    switch (s.draw(7))
    {
    case 0: t.insert(p, piece(s)); break;
    case 1:
      if (p < t.size())
        t.erase(p, 1 + s.draw(4));
      break;
    case 2:
      if (p < t.size())
        t[p] = char(s.draw(256));
      break;
    case 3:
      if (p < t.size())
        t[p] = "{}[],:\"\\ \n0-.etfn/"[s.draw(18)];
      break;
    case 4: t.resize(p); break;
    case 5:
    {
      size_t l = std::min<size_t>(t.size() - p, s.draw(30));
      t.insert(p, t.substr(p, l));
      break;
    }
    default:
      if (p < t.size())
        t[p] = char(t[p] ^ (1 << s.draw(8)));
    }
  }
  return t;
}
static std::string genBytes(Src &s, const JV *suitable, rel::Sw &sw, std::string &cls)
{
  switch (s.weighted({5, 2, 2, 2, 1, 1}))
  {
  case 0:
  {
    cls = "made for the target";
    return damage(s, ref::text(s, suitable ? *suitable : ref::genDoc(s), s.boolean()));
  }
  case 1:
  {
    cls = "pieces";
    std::string o;
    if (s.boolean())
      o = s.boolean() ? "{" : "[";
    for (size_t n = s.draw(30); n; n--)
      o += piece(s);
    return o;
  }
  case 2:
  {
    cls = "relaxed";
    rel::Sw on = rel::Sw::from(unsigned(s.draw(16)));
    rel::Printer p(s, on);
    p.document(suitable ? *suitable : ref::genDoc(s));
    sw = s.chance(3, 4) ? on : sw;
    return damage(s, p.out.text);
  }
  case 3:
  {
    cls = "arbitrary";
    std::string o;
    for (size_t n = s.size(200); n; n--)
      o += char(s.draw(256));
    return o;
  }
  case 4:
  {
    cls = "runs";
    std::string o;
    for (size_t n = 1 + s.draw(4); n; n--)
    {
      std::string p = piece(s);
      size_t times = s.chance(1, 4) ? s.draw(5000) : s.draw(100);
      if (p.size() * times > 20000)
        times = 20000 / p.size();
      while (times--)
        o += p;
    }
    return o;
  }
  default:
  {
    cls = "values";
    std::string o = "{";
    static const char *const n[] = {"\"v\":", "\"i\":", "\"after\":", "\"s\":", "\"a\":", "\"nested\":", "\"list\":"};
    for (size_t k = 1 + s.draw(4); k; k--)
    {
      o += n[s.draw(7)];
      std::string w = s.draw(3) ? number(s) : strange(s);
      switch (s.draw(4))
      {
      case 0: o += "[" + w + "," + number(s) + "]"; break;
      case 1: o += "\"" + number(s) + "\""; break;
      default: o += w;
      }
      if (k > 1)
        o += ",";
    }
    return damage(s, o + "}");
  }
  }
}

// ---------------------------------------------------------------- targets
static void errorText(JS::ParseContext &pc, JS::Error er)
{
  std::string m = pc.makeErrorString();
  if (er != JS::Error::NoError)
    PBT_CHECK(!m.empty(), "a failure without an error text");
}
// parses until the input is used up or fails; more input is added on demand
template <typename X>
static JS::Error feedParse(JS::ParseContext &pc, Feeder &f, X &x)
{
  JS::Error er = pc.parseTo(x);
  errorText(pc, er);
  // the caller can add the rest and try again: a new value is read from where the input is
  for (int i = 0; i < 3 && er == JS::Error::NeedMoreData && f.add(pc.tokenizer); i++)
  {
    er = pc.parseTo(x);
    errorText(pc, er);
  }
  PBT_CHECK(f.problem.empty(), f.problem);
  return er;
}
template <typename T>
struct W
{
  T v;
  int after = 0;
  std::string last;
  JS_OBJ(v, after, last);
};
struct Job
{
  Src &s;
  Ctx &c;
  rel::Sw sw;
  std::string bytes, target, cls;
  void describe(const Feeder &f)
  {
    c.identity(target);
    c.identity(bytes);
    c.identity(std::to_string(f.parts.size()));
    c.label(target.substr(0, target.find(' ')));
    c.label("input " + cls);
    JV v;
    if (f.parts.size() > 1 || bytes.size() > 2000 || (bytes.size() >= 2 && !ref::parse(bytes, v)))
      c.nontrivial = true;
    if (c.verbose)
      c.describe("input", target + " switches " + sw.show() + ": " + f.show());
  }
  void apply(JS::Tokenizer &t)
  {
    t.allowAsciiType(sw.ascii);
    t.allowNewLineAsTokenDelimiter(sw.newline);
    t.allowSuperfluousComma(sw.comma);
    t.allowComments(sw.comments);
  }
  Feeder feeder(bool whole = false)
  {
    Feeder f(bytes, !whole && s.boolean() ? genCuts(s, bytes) : std::vector<size_t>());
    f.plan(s);
    return f;
  }
};
template <typename T>
static void typed(const char *tn, Job &j)
{
  bool wrapped = j.s.boolean();
  JV v = shape::O<T>::gen(j.s, 0);
  if (wrapped)
  {
    JV o = JV::obj();
    o.o = {{"v", v}, {"after", JV::num(int64_t(1))}, {"last", JV::str("z")}};
    v = o;
  }
  j.bytes = genBytes(j.s, &v, j.sw, j.cls);
  j.target = std::string("typed ") + tn + (wrapped ? " member" : "");
  Feeder f = j.feeder();
  j.describe(f);
  JS::ParseContext pc;
  pc.allow_missing_members = !j.s.chance(1, 4);
  pc.allow_unasigned_required_members = !j.s.chance(1, 4);
  j.apply(pc.tokenizer);
  f.attach(pc.tokenizer);
  size_t times = 1 + j.s.draw(2);
  W<T> w;
  for (size_t i = 0; i < times; i++)
  {
    JS::Error er = wrapped ? feedParse(pc, f, w) : feedParse(pc, f, w.v);
    j.c.label(er == JS::Error::NoError ? "accepted" : "refused");
  }
}
static void hierarchy(Job &j)
{
  JV v = bind::genT(j.s);
  j.bytes = genBytes(j.s, &v, j.sw, j.cls);
  j.target = "hierarchy";
  Feeder f = j.feeder();
  j.describe(f);
  JS::ParseContext pc;
  pc.allow_missing_members = !j.s.chance(1, 4);
  pc.allow_unasigned_required_members = !j.s.chance(1, 4);
  pc.track_member_assignement_state = !j.s.chance(1, 4);
  j.apply(pc.tokenizer);
  f.attach(pc.tokenizer);
  bind::T t;
  feedParse(pc, f, t);
}
static void tokens(Job &j)
{
  j.bytes = genBytes(j.s, nullptr, j.sw, j.cls);
  j.target = "tokenizer";
  Feeder f = j.feeder();
  j.describe(f);
  JS::Tokenizer tk;
  j.apply(tk);
  f.attach(tk);
  JS::Token t;
  size_t n = 0, errors = 0;
  uint64_t sum = 0;
  bool scopes = j.s.chance(1, 4);
  size_t depth = 0;
  while (true)
  {
    JS::Error e = tk.nextToken(t);
    if (e == JS::Error::NoError)
    {
      n++;
      PBT_CHECK(n <= j.bytes.size() + 1, "more tokens than bytes");
      for (size_t i = 0; i < t.name.size; i++)
        sum += (unsigned char)t.name.data[i];
      for (size_t i = 0; i < t.value.size; i++)
        sum += (unsigned char)t.value.data[i];
      if (scopes && (t.value_type == JS::Type::ObjectStart || t.value_type == JS::Type::ArrayStart) && j.s.chance(1, 3))
      {
        tk.pushScope(t.value_type);
        depth++;
        if (j.s.boolean())
        {
          JS::Error g = tk.goToEndOfScope(t);
          if (g == JS::Error::NoError && depth)
          {
            tk.popScope();
            depth--;
          }
        }
      }
      continue;
    }
    if (e == JS::Error::ScopeHasEnded)
    {
      tk.popScope();
      depth--;
      continue;
    }
    if (e == JS::Error::NeedMoreData)
    {
      if (!f.add(tk))
        break;
      continue;
    }
    PBT_CHECK(!tk.makeErrorString().empty(), "no error text");
    if (++errors > 3)
      break; // going on after an error must be harmless
  }
  PBT_CHECK(f.problem.empty(), f.problem);
  if (sum == 1)
    j.c.label("sum 1"); // the bytes of the tokens are read
}
static void recording(Job &j)
{
  j.bytes = genBytes(j.s, nullptr, j.sw, j.cls);
  j.target = "recording";
  Feeder f = j.feeder(true);
  f.mode = 0;
  f.upfront = f.parts.size();
  j.describe(f);
  Exact e(j.bytes);
  JS::ParseContext pc(e.data(), e.size());
  j.apply(pc.tokenizer);
  JS::JsonTokens rec;
  JS::Error er = pc.parseTo(rec);
  errorText(pc, er);
  if (er != JS::Error::NoError)
    return;
  auto meta = JS::metaForTokens(rec);
  PBT_CHECK(meta.size() <= rec.data.size(), "index larger than the recording");
  for (int i = 0; i < 3; i++)
  {
    JS::ParseContext p2;
    p2.tokenizer.addData(&rec.data);
    if (i == 0)
    {
      bind::T t;
      errorText(p2, p2.parseTo(t));
    }
    else if (i == 1)
    {
      std::vector<JS::JsonObjectOrArray> t;
      errorText(p2, p2.parseTo(t));
    }
    else
    {
      std::map<std::string, std::vector<int>> t;
      errorText(p2, p2.parseTo(t));
    }
  }
  std::string o = JS::serializeStruct(rec);
  PBT_CHECK(!o.empty(), "nothing written for a recording");
}
static void dynamic(Job &j)
{
  j.bytes = genBytes(j.s, nullptr, j.sw, j.cls);
  j.target = "map";
  bool cut = j.s.chance(1, 3);
  Feeder f = j.feeder(!cut);
  j.describe(f);
  Exact e(j.bytes);
  JS::ParseContext pc;
  j.apply(pc.tokenizer);
  JS::Map m;
  if (cut)
  {
    // the map refers to its input: only reading is safe with buffers that go away
    f.attach(pc.tokenizer);
    feedParse(pc, f, m);
    return;
  }
  pc.tokenizer.addData(e.data(), e.size());
  JS::Error er = pc.parseTo(m);
  errorText(pc, er);
  if (er != JS::Error::NoError)
    return;
  std::vector<std::string> names;
  size_t n = 0;
  for (auto it = m.begin(); it != m.end(); ++it)
  {
    PBT_CHECK(++n <= j.bytes.size() + 1, "more members than bytes");
    names.push_back(std::string(it->name.data ? it->name.data : "", it->name.size));
  }
  names.push_back("nothing");
  for (size_t i = 0; i < 6; i++)
  {
    const std::string &k = j.s.pick(names);
    JS::ParseContext p2;
    switch (j.s.draw(6))
    {
    case 0: { int x = 0; (void)m.castToType(k, p2, x); break; }
    case 1: { std::string x; (void)m.castToType(k, p2, x); break; }
    case 2: { std::vector<std::string> x; (void)m.castToType(k, p2, x); break; }
    case 3: { JS::Map x; (void)m.castToType(k, p2, x); break; }
    case 4: { bind::T x; (void)m.castToType(p2, x); break; }
    default:
    {
      JS::Error q = m.setValue(k, p2, std::vector<int>{1, 2});
      (void)q;
    }
    }
  }
  std::string o = JS::serializeStruct(m);
  PBT_CHECK(!o.empty(), "nothing written for a map");
}
struct Fn
{
  int calls = 0;
  void a() { calls++; }
  int i(int x) { calls++; return x; }
  std::string s(const std::string &x) { calls++; return x; }
  shape::In v(const shape::In &x) { calls++; return x; }
  void after(std::vector<JS::JsonObjectOrArray> x, JS::CallFunctionErrorContext &e) { calls++; if (x.size() > 1) e.setError("too many"); }
  void nested(std::unique_ptr<std::map<std::string, double>> &x) { calls += x ? 1 : 2; }
  JS_FUNC_OBJ(a, i, s, v, after, nested);
};
static void functions(Job &j)
{
  JV v = JV::obj();
  static const char *const n[] = {"a", "i", "s", "v", "after", "nested", "none"};
  for (size_t k = j.s.draw(5); k; k--)
    v.o.push_back({n[j.s.draw(7)], shape::wild(j.s)});
  j.bytes = genBytes(j.s, &v, j.sw, j.cls);
  j.target = "functions";
  Feeder f = j.feeder();
  j.describe(f);
  std::string out;
  JS::DefaultCallFunctionContext ctx(out);
  j.apply(ctx.p_context.tokenizer);
  f.attach(ctx.p_context.tokenizer);
  ctx.stop_execute_on_fail = j.s.boolean();
  ctx.allow_missing = j.s.boolean();
  Fn fn;
  JS::Error er = ctx.callFunctions(fn);
  if (er != JS::Error::NoError)
    PBT_CHECK(!ctx.p_context.makeErrorString().empty(), "no error text");
  PBT_CHECK(size_t(fn.calls) <= 2 * j.bytes.size(), "more calls than bytes");
  PBT_CHECK(ctx.execution_list.size() <= j.bytes.size() + 1, "more entries than bytes");
  std::string rep = JS::serializeStruct(ctx.execution_list);
  PBT_CHECK(f.problem.empty(), f.problem);
}
static void reformatting(Job &j)
{
  j.bytes = genBytes(j.s, nullptr, j.sw, j.cls);
  j.target = "reformat";
  Feeder f = j.feeder(true);
  j.describe(f);
  Exact e(j.bytes);
  std::string out;
  JS::SerializerOptions o(j.s.boolean() ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact);
  JS::Error er = JS::reformat(e.data(), e.size(), out, o);
  if (er == JS::Error::NoError)
    PBT_CHECK(out.size() <= 64 + 64 * j.bytes.size() + j.bytes.size() * j.bytes.size(), "output out of proportion");
}

void run_case(Src &s, Ctx &c)
{
  Job j{s, c, rel::Sw::from(unsigned(s.chance(1, 2) ? s.draw(16) : 0)), "", "", ""};
  switch (s.weighted({3, 8, 2, 1, 2, 2, 1}))
  {
  case 0: return tokens(j);
  case 1:
  {
#define CNT(T) +1
    size_t n = 0 SHAPE_TYPES(CNT);
    size_t k = s.draw(n);
    size_t i = 0;
    using namespace shape;
#define RUN(T)                                                                                                         \
  if (i++ == k)                                                                                                        \
    typed<T>(#T, j);
    SHAPE_TYPES(RUN)
    return;
  }
  case 2: return hierarchy(j);
  case 3: return recording(j);
  case 4: return dynamic(j);
  case 5: return functions(j);
  default: return reformatting(j);
  }
}
// deep nesting: no recursion on the depth of the input where the target has none
size_t fixed_count() { return 8; }
void run_fixed(size_t i, Ctx &)
{
  size_t n = 20000;
  std::string open = i & 1 ? "{\"a\":" : "[", close = i & 1 ? "}" : "]", t;
  for (size_t k = 0; k < n; k++)
    t += open;
  if (i & 2)
  {
    t += "1";
    for (size_t k = 0; k < n; k++)
      t += close;
  }
  if (i < 4)
  {
    Read r = readAll(t);
    PBT_CHECK(r.toks.size() >= n, "deep nesting");
    std::string u = "{\"unknown\":" + t + ",\"after\":3}";
    W<int> w;
    JS::ParseContext pc(u.data(), u.size());
    JS::Error er = pc.parseTo(w);
    PBT_CHECK((er == JS::Error::NoError) == bool(i & 2), "a deep unknown member");
    PBT_CHECK(!(i & 2) || w.after == 3, "the member after a deep unknown one");
    JS::JsonObjectOrArray raw;
    JS::ParseContext p2(t.data(), t.size());
    PBT_CHECK((p2.parseTo(raw) == JS::Error::NoError) == bool(i & 2), "a deep raw value");
  }
  else
  {
    JS::JsonTokens rec;
    JS::ParseContext p2(t.data(), t.size());
    PBT_CHECK((p2.parseTo(rec) == JS::Error::NoError) == bool(i & 2), "a deep recording");
    if (i & 2)
      PBT_CHECK(JS::metaForTokens(rec).size() == n, "the index of a deep recording");
    std::string out;
    PBT_CHECK((JS::reformat(t.data(), t.size(), out, JS::SerializerOptions(JS::SerializerOptions::Compact)) == JS::Error::NoError) == bool(i & 2), "a deep document is reformatted");
  }
}
