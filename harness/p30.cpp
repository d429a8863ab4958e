#include "shape.h"
#include "relaxed.h"
using namespace pbt;
using namespace glue;
typedef ref::JV JV;
const char *const PROP_ID = "P30";
const char *const PROP_RULE =
  "Cases are (a) a document decorated with relaxed syntax (comments, unquoted names and words, newline separators, trailing commas), "
  "read with its switches and copied token by token to a serializer with every style, indentation, setConvertAsciiToString and "
  "skipDelimiter, the text read back; (b) a document for one of 41 destination types, decorated without changing its content, parsed "
  "into the type with the switches and, undecorated, without. Oracle: (a) the independent strict parser's token list with the default "
  "options, the independent relaxed reader with the switches that the output options require otherwise, and the library's own tokens of "
  "the same text; (b) same outcome, equal value, the values of the document. Non-trivial: the text uses an extension.";
void prop_init() {}

template <typename T>
struct W
{
  T v{};
  int after = -77;
  std::string last = "unset";
  JS_OBJ(v, after, last);
};
// the same tokens as strict text
static std::string strictText(const std::vector<ref::Tok> &toks)
{
  std::string o;
  bool first = true;
  for (auto &t : toks)
  {
    bool end = t.kind == '}' || t.kind == ']';
    if (!first && !end)
      o += ',';
    if (t.named)
      o += '"' + t.name + "\":";
    o += t.kind == 's' || t.kind == 'w' ? '"' + t.value + '"' : t.value;
    first = t.kind == '{' || t.kind == '[';
  }
  return o;
}
template <typename T>
static void typed(const char *tn, Src &s, Ctx &c)
{
  JV val = shape::O<T>::gen(s, 0);
  if (s.chance(1, 4))
    shape::damage(s, val);
  JV doc = JV::obj();
  int after = int(s.range(0, 1000));
  std::string last = s.boolean() ? std::string("word_") + char('a' + s.draw(26)) : ref::genString(s, 20);
  doc.o.emplace_back("v", val);
  doc.o.emplace_back("after", JV::num(int64_t(after)));
  doc.o.emplace_back("last", JV::str(last));
  if (s.chance(1, 4))
    std::swap(doc.o[0], doc.o[s.boolean() ? 1 : 2]);
  if (s.chance(1, 3))
    doc.o.insert(doc.o.begin() + long(s.draw(doc.o.size())), std::make_pair(std::string("other"), shape::wild(s)));
  rel::Sw on = rel::Sw::from(unsigned(1 + s.draw(15)));
  rel::Printer pr(s, on);
  pr.keep = true;
  rel::Printed d = pr.document(doc);
  std::string strict = strictText(d.toks);
  c.identity(tn);
  c.identity(on.show() + d.text);
  if (c.verbose)
    c.describe("document", "switches " + on.show() + " " + printable(d.text) + "  into " + tn);
  Exact e1(strict), e2(d.text);
  W<T> a, b;
  JS::ParseContext p1(e1.data(), e1.size()), p2(e2.data(), e2.size());
  Opts::from(on.bits()).apply(p2.tokenizer);
  JS::Error r1 = p1.parseTo(a), r2 = p2.parseTo(b);
  c.nontrivial = d.used.bits() != 0;
  c.label(r1 == JS::Error::NoError ? "typed, accepted" : "typed, refused");
  PBT_CHECK(r1 == r2, std::string("into ") + tn + ": the strict text gives " + errName(r1) + ", the relaxed one " + std::to_string(int(r2)));
  if (r1 != JS::Error::NoError)
    return;
  std::string x = JS::serializeStruct(a), y = JS::serializeStruct(b);
  JV xv, yv; // unordered containers may be written in another order
  std::string err, where;
  PBT_CHECK(ref::parse(x, xv, &err) && ref::parse(y, yv, &err), std::string("into ") + tn + ": written as " + printable(x) + " and " + printable(y));
  PBT_CHECK(ref::equal(xv, yv, false, &where) || std::string(tn).find("nordered") != std::string::npos,
            std::string("into ") + tn + ": the strict text gives " + printable(x) + ", the relaxed one " + printable(y));
  PBT_CHECK(shape::O<T>::same(b.v, val) && b.after == after && b.last == last, std::string("into ") + tn + ": the relaxed text gives other values than those of the document: " + printable(y));
}

static void copyAll(const std::string &t, rel::Sw on, const JS::SerializerOptions &o, std::string &out)
{
  Exact e(t);
  JS::Tokenizer tk;
  Opts::from(on.bits()).apply(tk);
  tk.addData(e.data(), e.size());
  JS::SerializerContext sc(out);
  sc.serializer.setOptions(o);
  JS::Token tok;
  int depth = 0;
  for (size_t i = 0;; i++)
  {
    PBT_CHECK(i <= t.size() + 1, "more tokens than characters");
    JS::Error er = tk.nextToken(tok);
    PBT_CHECK(er == JS::Error::NoError, std::string("legal text refused: ") + errName(er));
    PBT_CHECK(sc.serializer.write(tok), "writing a token fails");
    if (tok.value_type == JS::Type::ObjectStart || tok.value_type == JS::Type::ArrayStart)
      depth++;
    if (tok.value_type == JS::Type::ObjectEnd || tok.value_type == JS::Type::ArrayEnd)
      if (--depth == 0)
        break;
  }
  sc.flush();
}
// which of the names are unquoted words, in order
static std::string nameKinds(const std::string &t, rel::Sw on)
{
  Exact e(t);
  JS::Tokenizer tk;
  Opts::from(on.bits()).apply(tk);
  tk.addData(e.data(), e.size());
  JS::Token tok;
  std::string o;
  for (size_t i = 0; i <= t.size() && tk.nextToken(tok) == JS::Error::NoError; i++)
    if (tok.name.size)
      o += tok.name_type == JS::Type::String ? 's' : 'w';
  return o;
}
static bool commaOutsideStrings(const std::string &t)
{
  bool in = false;
  for (size_t i = 0; i < t.size(); i++)
    if (in && t[i] == '\\')
      i++;
    else if (t[i] == '"')
      in = !in;
    else if (!in && t[i] == ',')
      return true;
  return false;
}
static void copied(Src &s, Ctx &c)
{
  rel::Sw on = rel::Sw::from(unsigned(s.draw(16)));
  ref::GenOpt g;
  g.depth = int(1 + s.draw(8));
  JV v = ref::genDoc(s, g);
  rel::Printer pr(s, on);
  rel::Printed d = pr.document(v);
  bool pretty = s.boolean(), skip = pretty && s.chance(1, 3), words = s.chance(1, 3);
  JS::SerializerOptions o(pretty ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact);
  int shift = -1;
  if (s.chance(2, 3))
    o.setShiftSize((unsigned char)(shift = int(s.chance(1, 30) ? s.draw(256) : s.draw(9))));
  if (skip)
    o.skipDelimiter(true);
  else if (s.chance(1, 8))
  {
    o.skipDelimiter(true);
    o.skipDelimiter(false);
  }
  if (words)
    o.setConvertAsciiToString(false);
  PBT_CHECK(o.convertAsciiToString() == !words && o.style() == (pretty ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact), "options");
  std::string desc = fmt("%s shift %d%s%s", pretty ? "pretty" : "compact", shift, skip ? " no commas" : "", words ? " words unquoted" : "");
  c.identity(on.show() + d.text + desc);
  if (c.verbose)
    c.describe("document", "switches " + on.show() + " " + printable(d.text) + " copied " + desc);
  std::string out(s.chance(1, 3) ? s.draw(60) : 0, 'Z');
  copyAll(d.text, on, o, out);
  if (c.verbose)
    c.describe("result", printable(out));
  bool any = d.used.ascii;
  c.nontrivial = d.used.bits() != 0;
  c.label("copied " + std::string(skip ? "without commas " : "") + (words && any ? "with words" : ""));
  std::vector<ref::Tok> want = d.toks, strict = d.toks;
  for (auto &t : strict)
  {
    if (t.kind == 'w')
      t.kind = 's';
    t.begin = 0;
  }
  rel::Sw need;
  need.newline = skip;
  need.ascii = words && any;
  if (!skip && !(words && any))
  {
    JV b;
    std::string err;
    std::vector<ref::Tok> tb;
    PBT_CHECK(ref::parse(out, b, &err, &tb), desc + ": the copy is not strict JSON: " + err + ": " + printable(out));
    compareToks(tb, strict, desc + ": the copy");
  }
  else
  {
    rel::Reader rd(out, need);
    PBT_CHECK(rd.document(), desc + ": the copy is not readable with " + need.show() + ": " + rd.err + ": " + printable(out));
    compareToks(rd.toks, words ? want : strict, desc + ": the copy");
  }
  Read r = readAll(out, Opts::from(need.bits()), true);
  PBT_CHECK(r.error == JS::Error::NoError, desc + ": the copy is refused with " + errName(r.error) + ": " + printable(out));
  compareToks(r.toks, words ? want : strict, desc + ": the copy, read by the library");
  PBT_CHECK(!skip || !commaOutsideStrings(out), desc + ": the copy has a comma: " + printable(out));
  if (pretty)
  {
    std::string bad = indentProblem(out, o.shiftSize());
    PBT_CHECK(bad.empty(), desc + ": " + bad + ": " + printable(out));
  }
  std::string k1 = nameKinds(d.text, on), k2 = nameKinds(out, need);
  PBT_CHECK(k2 == (words ? k1 : std::string(k1.size(), 's')), desc + ": names were " + k1 + " (s quoted, w word) and are " + k2 + ": " + printable(out));
  // copying the copy changes nothing
  std::string again;
  copyAll(out, need, o, again);
  PBT_CHECK(again == out, desc + ": copying the copy gives " + printable(again) + " instead of " + printable(out));
}

#define P30_TYPES(X)                                                                                                   \
  X(int) X(uint8_t) X(int64_t) X(double) X(float) X(bool) X(std::string) X(ty::TP) X(std::vector<int>)    \
  X(std::vector<bool>) X(std::vector<std::string>) X(VVS) X(std::vector<In>) X(Int3) X(Str2) X(ArS2) X(StdTup) X(JsTup) \
  X(JS::Optional<int>) X(JS::OptionalChecked<std::vector<int>>) X(std::optional<In>) X(JS::Nullable<double>)           \
  X(JS::NullableChecked<In>) X(std::unique_ptr<In>) X(std::shared_ptr<std::vector<std::string>>) X(MapVS) X(UMapIn)    \
  X(MapMap) X(std::set<int>) X(std::unordered_set<std::string>) X(JS::SilentString) X(JS::SilentVector<bool>)          \
  X(JS::SilentUniquePtr<In>) X(JS::OneOrMany<int>) X(JS::OneOrMany<In>) X(Avc4) X(AvcS3) X(In) X(VArS) X(VMap)          \
  X(JS::OneOrMany<std::string>)
void run_case(Src &s, Ctx &c)
{
  if (s.boolean())
    return copied(s, c);
#define CNT(T) +1
  size_t n = 0 P30_TYPES(CNT);
  size_t k = s.draw(n);
  size_t i = 0;
  using namespace shape;
#define RUN(T)                                                                                                         \
  if (i++ == k)                                                                                                        \
    typed<T>(#T, s, c);
  P30_TYPES(RUN)
}
size_t fixed_count() { return 0; }
void run_fixed(size_t, Ctx &) {}
