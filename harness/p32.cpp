#include "typed.h"
#include "bind.h"
#include "feed.h"
using namespace pbt;
using namespace glue;
typedef ref::JV JV;
const char *const PROP_ID = "P32";
const char *const PROP_RULE =
  "Cases are streams of 1 to 7 object and array documents, with white space or nothing between them (comments and unquoted names with "
  "the switches for them), delivered in one buffer, in any pieces, up front, by callback, or after the tokenizer asked for them, and read "
  "from one context one after another, each into one of 11 target types, or as tokens; also as one list of recorded tokens. The last one "
  "may be cut off. Oracle: the same document alone in a fresh context (result, values, member lists), the offset at which it ends, and the "
  "amount delivered when it ended: no call asks for text beyond the document it is reading. Non-trivial: two or more documents were read.";
void prop_init() {}

struct Small
{
  int a = 0;
  std::string b;
  std::vector<Small> more;
  JS_OBJ(a, b, more);
};
typedef std::map<std::string, JS::JsonTokens> AnyMap;
typedef std::vector<JS::JsonTokens> AnyList;
enum Kind { KU, KBind, KSmall, KTokens, KMap, KInts, KStrs, KRaw, KAnyMap, KAnyList, KPairs, KCount };
static const char *const NAMES[] = {"53 members", "bound", "small", "tokens", "map", "ints", "strings", "raw", "map of tokens", "list of tokens", "map of lists"};

static JV genSmall(Src &s, int depth)
{
  JV v = JV::obj();
  v.o.emplace_back("a", JV::num(s.range(-99, 99)));
  v.o.emplace_back("b", JV::str(ref::genString(s, 20)));
  JV m = JV::arr();
  for (size_t n = depth ? s.draw(3) : 0; n--;)
    m.a.push_back(genSmall(s, depth - 1));
  v.o.emplace_back("more", m);
  if (s.chance(1, 5))
    v.o.emplace_back("other", ref::genDoc(s));
  if (s.chance(1, 8))
    v.o.erase(v.o.begin() + long(s.draw(v.o.size())));
  return v;
}
static JV gen(Src &s, Kind k)
{
  JV v;
  switch (k)
  {
  case KU:
  {
    ty::U u;
    ty::genSome(s, u);
    return ty::G<ty::U>::jv(u);
  }
  case KBind: return bind::genT(s);
  case KSmall: return genSmall(s, 3);
  case KInts:
    v = JV::arr();
    for (size_t n = s.size(8); n--;)
      v.a.push_back(JV::num(s.range(-100000, 100000)));
    return v;
  case KStrs:
    v = JV::arr();
    for (size_t n = s.size(8); n--;)
      v.a.push_back(JV::str(ref::genString(s, 30)));
    return v;
  case KPairs:
    v = JV::obj();
    for (size_t n = s.size(5); n--;)
    {
      JV a = JV::arr();
      for (size_t m = s.draw(4); m--;)
        a.a.push_back(JV::str(ref::genString(s, 8)));
      v.o.emplace_back("k" + std::to_string(n), a);
    }
    return v;
  default:
    for (int i = 0;; i++)
    {
      ref::GenOpt g;
      g.unique_names = true;
      v = ref::genDoc(s, g);
      if (v.k == ref::Obj ? k != KAnyList : v.k == ref::Arr && k != KMap && k != KAnyMap)
        return v;
      if (i > 20)
        return k == KAnyList ? JV::arr() : JV::obj();
    }
  }
}
template <typename T>
static std::string into(JS::ParseContext &pc)
{
  T t{};
  JS::Error e = pc.parseTo(t);
  std::string r = "E" + std::to_string(int(e)) + ";";
  if (e != JS::Error::NoError)
    return r;
  for (auto &m : pc.missing_members)
    r += "?" + m;
  for (auto &m : pc.unassigned_required_members)
    r += "!" + m;
  return r + JS::serializeStruct(t, JS::SerializerOptions(JS::SerializerOptions::Compact));
}
static std::string read(JS::ParseContext &pc, Kind k)
{
  switch (k)
  {
  case KU: return into<ty::U>(pc);
  case KBind:
  {
    bind::T t;
    JS::Error e = pc.parseTo(t);
    std::string r = "E" + std::to_string(int(e)) + ";";
    if (e != JS::Error::NoError)
      return r;
    for (auto &m : pc.missing_members)
      r += "?" + m;
    return r + ref::text(bind::dump(t));
  }
  case KSmall: return into<Small>(pc);
  case KTokens: return into<JS::JsonTokens>(pc);
  case KMap: return into<JS::Map>(pc);
  case KInts: return into<std::vector<int>>(pc);
  case KStrs: return into<std::vector<std::string>>(pc);
  case KRaw: return into<JS::JsonObjectOrArray>(pc);
  case KAnyMap: return into<AnyMap>(pc);
  case KAnyList: return into<AnyList>(pc);
  default: return into<ty::MapVS>(pc);
  }
}

// a raw value taken from recorded tokens has none of the white space of the text
static std::string squeeze(const std::string &t)
{
  std::string r;
  bool in = false;
  for (size_t i = 0; i < t.size(); i++)
  {
    if (in && t[i] == '\\' && i + 1 < t.size())
      r += t[i++];
    else if (t[i] == '"')
      in = !in;
    else if (!in && strchr(" \t\r\n", t[i]))
      continue;
    r += t[i];
  }
  return r;
}

// names that are plain words without their quotes
static std::string unquoted(const std::string &t)
{
  std::string r;
  for (size_t i = 0; i < t.size(); i++)
  {
    r += t[i];
    if (t[i] != '"')
      continue;
    size_t e = i + 1;
    while (t[e] != '"')
      e += t[e] == '\\' ? 2 : 1;
    std::string w = t.substr(i + 1, e - i - 1);
    size_t n = t.find_first_not_of(" \t\r\n", e + 1);
    if (n != std::string::npos && t[n] == ':' && w.size() && w.find_first_not_of("abcdefghijklmnopqrstuvwxyz") == std::string::npos &&
        w != "true" && w != "false" && w != "null")
    {
      r.pop_back();
      r += w;
    }
    else
      r += w + '"';
    i = e;
  }
  return r;
}

void run_case(Src &s, Ctx &c)
{
  const size_t n = 1 + s.draw(7);
  const bool comments = s.chance(1, 6), ascii = s.chance(1, 6);
  std::vector<Kind> kinds;
  std::vector<std::string> docs;
  std::vector<JV> values;
  std::vector<size_t> from, to;
  std::string t;
  auto gap = [&] {
    switch (s.draw(5))
    {
    case 0: break;
    case 1: t += "\n"; break;
    case 2: t += "\r\n"; break;
    case 3: t += std::string(s.draw(40), ' '); break;
    default:
      for (size_t k = s.draw(6); k--;)
        t += " \t\r\n"[s.draw(4)];
    }
    if (comments && s.boolean())
      t += "// comment " + std::string(s.draw(30), '{') + "\n";
  };
  gap();
  const int way = int(s.draw(5)); // one buffer / pieces by callback / pieces up front / pieces when asked for / recorded
  const bool aligned = way == 0 || way == 4 || s.chance(1, 3); // no document is cut
  auto kind = [&] {
    // token lists refer to the text, so they need it in one piece
    static const Kind any[] = {KU, KBind, KSmall, KInts, KStrs, KRaw, KPairs};
    return aligned ? Kind(s.draw(KCount)) : s.pick(any);
  };
  Kind same = kind();
  bool mixed = s.boolean();
  for (size_t i = 0; i < n; i++)
  {
    kinds.push_back(mixed ? kind() : same);
    values.push_back(gen(s, kinds.back()));
    std::string d = ref::text(s, values.back(), false);
    size_t a = d.find_first_not_of(" \t\r\n"), b = d.find_last_not_of(" \t\r\n");
    docs.push_back(d.substr(a, b - a + 1));
    if (ascii)
      docs.back() = unquoted(docs.back());
    from.push_back(t.size());
    t += docs.back();
    to.push_back(t.size());
    gap();
    c.label(NAMES[kinds.back()]);
  }
  bool cut = s.chance(1, 6);
  if (cut)
    t.resize(from.back() + s.draw(docs.back().size()));
  c.identity(t);
  c.nontrivial = n - cut > 1;
  Feeder f(t, way == 0 ? std::vector<size_t>() : genCuts(s, t));
  if (way && aligned)
  {
    // pieces that end exactly where documents end
    std::vector<size_t> cuts;
    for (size_t i = 0; i < n; i++)
    {
      if (s.boolean() && to[i] <= t.size())
        cuts.push_back(to[i]);
      if (s.chance(1, 3) && i + 1 < n && from[i + 1] <= t.size())
        cuts.push_back(from[i + 1]);
    }
    std::sort(cuts.begin(), cuts.end());
    f = Feeder(t, cuts);
  }
  if (c.verbose)
  {
    std::string k;
    for (Kind x : kinds)
      k += std::string(NAMES[x]) + ", ";
    c.describe("stream", fmt("way %d into ", way) + k + f.show());
  }
  std::vector<std::string> want;
  for (size_t i = 0; i < n; i++)
  {
    Exact e(docs[i]);
    JS::ParseContext alone(e.data(), e.size());
    alone.tokenizer.allowComments(comments);
    alone.tokenizer.allowAsciiType(ascii);
    want.push_back(read(alone, kinds[i]));
    // what has to be accepted is decided by other properties; here each document was made for its type
    PBT_CHECK(want.back().substr(0, 3) == "E0;", fmt("document %zu alone is refused: ", i) + want.back() + " " + alone.makeErrorString());
  }
  if (way == 4)
  {
    if (cut || ascii)
      return;
    Exact e(t);
    JS::Tokenizer tk;
    tk.allowComments(comments);
    tk.allowAsciiType(ascii);
    tk.addData(e.data(), e.size());
    std::vector<JS::Token> rec;
    JS::Token x;
    while (tk.nextToken(x) == JS::Error::NoError)
      rec.push_back(x);
    std::vector<ref::Tok> got, exp;
    for (auto &r : rec)
      got.push_back(conv(r));
    for (auto &d : docs)
    {
      JV v;
      std::vector<ref::Tok> tt;
      std::string err;
      PBT_CHECK(ref::parse(d, v, &err, &tt), "generator: " + err);
      exp.insert(exp.end(), tt.begin(), tt.end());
    }
    compareToks(got, exp, "the tokens of the stream");
    JS::ParseContext pc;
    pc.tokenizer.addData(&rec);
    for (size_t i = 0; i < n; i++)
    {
      std::string g = read(pc, kinds[i]);
      PBT_CHECK(squeeze(g) == squeeze(want[i]), fmt("document %zu of the recorded stream gives ", i) + printable(g.substr(0, 800)) + ", alone " + printable(want[i].substr(0, 800)));
    }
    std::string g = read(pc, KTokens);
    PBT_CHECK(g.substr(0, 3) != "E0;", "a document is read after the end of the recorded stream: " + printable(g));
    return;
  }
  JS::ParseContext pc;
  pc.tokenizer.allowComments(comments);
  pc.tokenizer.allowAsciiType(ascii);
  f.mode = way == 1 ? 1 : way == 3 ? 3 : 0;
  f.upfront = way == 1 ? 0 : way == 3 ? 0 : f.parts.size();
  if (aligned)
    f.keep = true;
  f.attach(pc.tokenizer);
  auto delivered = [&] {
    size_t d = 0;
    for (size_t i = 0; i < f.added; i++)
      d += f.parts[i].size();
    return d;
  };
  for (size_t i = 0; i < n; i++)
  {
    if (way == 3)
      // the caller waits for the whole of a document before it is read, and no more than the piece in which it ends
      while (delivered() < to[i] && f.add(pc.tokenizer))
        ;
    std::string g = read(pc, kinds[i]);
    PBT_CHECK(f.problem.empty(), f.problem);
    if (cut && i + 1 == n)
    {
      PBT_CHECK(g.substr(0, 3) != "E0;", "a document that is cut off is accepted");
      return;
    }
    PBT_CHECK(g == want[i], fmt("document %zu of the stream gives ", i) + printable(g.substr(0, 800)) + ", alone " + printable(want[i].substr(0, 800)) +
                              (g.substr(0, 3) == "E0;" ? "" : " " + pc.makeErrorString()));
    if (way == 1 || way == 3)
    {
      // nothing was asked for beyond the piece in which the document ends
      size_t d = 0, k = 0;
      while (k < f.parts.size() && d < to[i])
        d += f.parts[k++].size();
      PBT_CHECK(f.added <= k, fmt("document %zu ends in piece %zu, but %zu pieces were asked for", i, k, f.added));
    }
    if (way == 0 && t.size())
    {
      const char *p = pc.tokenizer.currentPosition();
      if (p)
      {
        size_t at = size_t(p - f.held[0].get());
        size_t hi = i + 1 < n ? from[i + 1] : t.size();
        PBT_CHECK(at >= to[i] && at <= hi, fmt("after document %zu, which ends at %zu, the position is %zu", i, to[i], at));
      }
      else
        PBT_CHECK(t.find_first_not_of(" \t\r\n", to[i]) == std::string::npos || comments, "no position although text is left");
    }
  }
  while (way == 3 && f.add(pc.tokenizer))
    ;
  std::string g = read(pc, KTokens);
  PBT_CHECK(g.substr(0, 3) != "E0;", "a document is read after the end of the stream: " + printable(g));
  // it goes on when more text arrives
  if (way != 1 && s.boolean())
  {
    std::string again = docs[0];
    Exact e(again);
    JS::Tokenizer &tk = pc.tokenizer;
    tk.setReleaseCallback(f.rel = [](const char *) {});
    tk.addData(e.data(), e.size());
    std::string h = read(pc, kinds[0]);
    PBT_CHECK(h == want[0], "a document that arrives after the end of the stream gives " + printable(h.substr(0, 800)) + ", alone " + printable(want[0].substr(0, 800)));
    c.label("later document");
  }
}
size_t fixed_count() { return 0; }
void run_fixed(size_t, Ctx &) {}
