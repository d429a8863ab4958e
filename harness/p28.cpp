#include "shape.h"
#include <deque>
using namespace pbt;
using namespace glue;
typedef ref::JV JV;
const char *const PROP_ID = "P28";
const char *const PROP_RULE =
  "Cases are objects {v, after, last} or bare values for one of the 49 destination types of P15 (suitable, damaged or arbitrary), whose "
  "tokens are recorded (the whole document, the member v, or the elements and members at any depth "
  "one inside the other) and parsed into the type from the recording, several times and with contexts used before. Oracle: parsing the "
  "text directly (same failure, same serialized value) and the type-directed comparison with the document. Non-trivial: the parse from "
  "the recording succeeded and was compared, or both failed.";
void prop_init() {}

template <typename T>
struct W
{
  T v;
  int after = -77;
  std::string last = "unset";
  JS_OBJ(v, after, last);
};
struct Rec
{
  JS::JsonTokens v;
  int after = -77;
  std::string last = "unset";
  JS_OBJ(v, after, last);
};
template <typename X>
static JV written(const X &x, const std::string &what)
{
  std::string o = JS::serializeStruct(x), err;
  JV v;
  PBT_CHECK(ref::parse("[" + o + "]", v, &err), what + ": what was parsed is written as " + printable(o));
  return v;
}
// two results that have to agree
template <typename X>
static void agree(JS::Error e1, const X &a, JS::Error e2, const X &b, const std::string &what, Ctx &c)
{
  PBT_CHECK((e1 == JS::Error::NoError) == (e2 == JS::Error::NoError), what + ": the text gives " + std::to_string(int(e1)) + ", the recording " + std::to_string(int(e2)));
  c.nontrivial = true;
  c.label(e1 == JS::Error::NoError ? "accepted" : "refused");
  if (e1 != JS::Error::NoError)
    return;
  JV x = written(a, what), y = written(b, what);
  std::string where;
  PBT_CHECK(ref::equal(x, y, false, &where), what + ": the text gives " + printable(ref::text(x)) + ", the recording " + printable(ref::text(y)) + " at " + where);
}

template <typename T>
static void one(const char *tn, Src &s, Ctx &c)
{
  JV val = s.chance(1, 6) ? shape::wild(s) : shape::O<T>::gen(s, 0);
  size_t hits = s.weighted({4, 3, 1});
  for (size_t i = 0; i < hits; i++)
    shape::damage(s, val);
  bool container = val.k == ref::Arr || val.k == ref::Obj;
  unsigned how = container ? unsigned(s.draw(5)) : unsigned(1 + s.draw(4));
  int after = int(s.range(0, 1000));
  std::string last = ref::genString(s, 20);
  JV doc = val;
  if (how)
  {
    doc = JV::obj();
    doc.o.emplace_back("v", val);
    doc.o.emplace_back("after", JV::num(int64_t(after)));
    doc.o.emplace_back("last", JV::str(last));
    if (s.chance(1, 4))
      std::swap(doc.o[0], doc.o[1]);
    if (s.chance(1, 6))
      doc.o.emplace_back("other", shape::wild(s));
  }
  std::string t = ref::text(s, doc, false);
  c.identity(tn);
  c.identity(t);
  if (c.verbose)
    c.describe("document", fmt("way %u ", how) + printable(t) + "  into " + tn);
  Exact e(t);
  std::string where = std::string("into ") + tn;
  JS::ParseContext rp(e.data(), e.size());
  // contexts that read the recording
  JS::ParseContext used;
  if (s.boolean())
  {
    static const std::string junk = "{\"v\":[{\"x\":1},{";
    used.tokenizer.addData(junk.data(), junk.size());
    W<std::vector<int>> w;
    (void)used.parseTo(w);
  }
  size_t times = 1 + s.draw(3);
  if (how == 0)
  {
    JS::JsonTokens rec;
    PBT_CHECK(rp.parseTo(rec) == JS::Error::NoError, where + ": the tokens of a valid document are refused");
    c.label("whole value");
    JS::ParseContext pc(e.data(), e.size());
    W<T> a;
    JS::Error e1 = pc.parseTo(a.v);
    for (size_t i = 0; i < times; i++)
    {
      W<T> b;
      JS::ParseContext fresh;
      bool u = s.boolean();
      JS::ParseContext &q = u ? used : fresh;
      if (u)
        q.tokenizer.resetData(&rec.data, 0);
      else
        q.tokenizer.addData(&rec.data);
      JS::Error e2 = q.parseTo(b.v);
      PBT_CHECK(e1 == e2, where + ": the text gives " + std::to_string(int(e1)) + ", the recording " + std::to_string(int(e2)));
      agree(e1, a, e2, b, where + fmt(", time %zu", i), c);
      if (e2 == JS::Error::NoError)
        PBT_CHECK(shape::O<T>::same(b.v, val), where + ": the recording gives a value that is not the one of the document");
    }
    return;
  }
  if (how == 1)
  {
    JS::JsonTokens rec;
    PBT_CHECK(rp.parseTo(rec) == JS::Error::NoError, where + ": the tokens of a valid document are refused");
    c.label("whole document");
    JS::ParseContext pc(e.data(), e.size());
    W<T> a;
    JS::Error e1 = pc.parseTo(a);
    for (size_t i = 0; i < times; i++)
    {
      W<T> b;
      JS::ParseContext fresh;
      bool u = s.boolean();
      JS::ParseContext &q = u ? used : fresh;
      q.tokenizer.resetData(&rec.data, 0);
      JS::Error e2 = q.parseTo(b);
      PBT_CHECK(e1 == e2, where + ": the text gives " + std::to_string(int(e1)) + ", the recording " + std::to_string(int(e2)));
      agree(e1, a, e2, b, where + fmt(", time %zu", i), c);
      if (e2 == JS::Error::NoError)
        PBT_CHECK(shape::O<T>::same(b.v, val) && b.after == after && b.last == last, where + ": the recording gives values that are not those of the document");
    }
    return;
  }
  if (how == 4)
  {
    // the member, from the middle of the recording of the document
    JS::JsonTokens rec;
    PBT_CHECK(rp.parseTo(rec) == JS::Error::NoError, where + ": the tokens of a valid document are refused");
    c.label("member inside the recording of the document");
    size_t at = doc.o[0].first == "v" ? 1 : 2;
    W<T> a;
    JS::ParseContext pc(e.data(), e.size());
    JS::Error e1 = pc.parseTo(a);
    for (size_t i = 0; i < times; i++)
    {
      W<T> b;
      b.after = after;
      b.last = last;
      JS::ParseContext fresh;
      bool u = s.boolean();
      JS::ParseContext &q = u ? used : fresh;
      q.tokenizer.resetData(&rec.data, at);
      JS::Error e2 = q.parseTo(b.v);
      agree(e1, a, e2, b, where + fmt(", inside, time %zu", i), c);
      if (e2 == JS::Error::NoError)
        PBT_CHECK(shape::O<T>::same(b.v, val), where + ": the recording gives a value that is not the one of the document");
    }
    return;
  }
  // the member only
  Rec r;
  PBT_CHECK(rp.parseTo(r) == JS::Error::NoError, where + ": recording a member of a valid document is refused");
  PBT_CHECK(r.after == after && r.last == last, where + ": members around a recorded one are misread");
  W<T> a;
  JS::ParseContext pc(e.data(), e.size());
  JS::Error e1 = pc.parseTo(a);
  const std::vector<JS::Token> *src = &r.v.data;
  JS::JsonTokens again;
  std::string from = ", member";
  if (how == 3)
  {
    // a recording of the recording
    JS::ParseContext p2;
    p2.tokenizer.addData(&r.v.data);
    PBT_CHECK(p2.parseTo(again) == JS::Error::NoError, where + ": recording a recording is refused");
    src = &again.data;
    from = ", member recorded twice";
  }
  c.label(from.substr(2));
  for (size_t i = 0; i < times; i++)
  {
    W<T> b;
    b.after = after;
    b.last = last;
    JS::ParseContext fresh;
    bool u = s.boolean();
    JS::ParseContext &q = u ? used : fresh;
    q.tokenizer.resetData(src, 0);
    JS::Error e2 = q.parseTo(b.v);
    agree(e1, a, e2, b, where + from + fmt(", time %zu", i), c);
    if (e2 == JS::Error::NoError)
      PBT_CHECK(shape::O<T>::same(b.v, val), where + from + ": the recording gives a value that is not the one of the document");
  }
}

// elements and members at any depth, one inside the other
static void inside(Src &s, Ctx &c)
{
  ref::GenOpt g;
  g.depth = int(2 + s.draw(6));
  g.unique_names = true;
  JV v = ref::genDoc(s, g);
  std::string t = ref::text(s, v, false);
  c.identity(t);
  if (c.verbose)
    c.describe("document", printable(t));
  Exact e(t);
  JS::ParseContext pc(e.data(), e.size());
  JS::JsonTokens rec;
  PBT_CHECK(pc.parseTo(rec) == JS::Error::NoError, "the tokens of a valid document are refused");
  PBT_CHECK(shape::tokensDenote(rec.data, v), "the recording is not the document");
  JV *at = &v;
  std::string path;
  JS::ParseContext used;
  std::deque<std::map<std::string, JS::JsonTokens>> objs;
  std::deque<std::vector<JS::JsonTokens>> arrs;
  const std::vector<JS::Token> *src = &rec.data;
  while (at->k == ref::Obj || at->k == ref::Arr)
  {
    JS::ParseContext fresh;
    JS::ParseContext &q = s.boolean() ? used : fresh;
    q.tokenizer.resetData(src, 0);
    bool ob = at->k == ref::Obj;
    size_t n = ob ? at->o.size() : at->a.size();
    if (ob)
    {
      objs.emplace_back();
      PBT_CHECK(q.parseTo(objs.back()) == JS::Error::NoError, "the object at /" + path + " is refused");
      PBT_CHECK(objs.back().size() == n, "the object at /" + path + " has another number of members");
    }
    else
    {
      arrs.emplace_back();
      PBT_CHECK(q.parseTo(arrs.back()) == JS::Error::NoError, "the array at /" + path + " is refused");
      PBT_CHECK(arrs.back().size() == n, "the array at /" + path + " has another number of elements");
    }
    for (size_t i = 0; i < n; i++)
    {
      const JS::JsonTokens *x = ob ? &objs.back()[at->o[i].first] : &arrs.back()[i];
      PBT_CHECK(shape::tokensDenote(x->data, ob ? at->o[i].second : at->a[i]), "the value inside /" + path + " is recorded differently");
    }
    if (!n)
      break;
    c.nontrivial = true;
    size_t i = s.draw(n);
    path += ob ? printable(at->o[i].first) + "/" : std::to_string(i) + "/";
    src = ob ? &objs.back()[at->o[i].first].data : &arrs.back()[i].data;
    at = ob ? &at->o[i].second : &at->a[i];
  }
  c.label("elements and members");
}

void run_case(Src &s, Ctx &c)
{
  if (s.chance(1, 8))
    return inside(s, c);
#define CNT(T) +1
  size_t n = 0 SHAPE_TYPES(CNT);
  size_t k = s.draw(n);
  size_t i = 0;
  using namespace shape;
#define RUN(T)                                                                                                         \
  if (i++ == k)                                                                                                        \
    one<T>(#T, s, c);
  SHAPE_TYPES(RUN)
}
size_t fixed_count() { return 1; }
void run_fixed(size_t, Ctx &)
{
  // an empty recording holds no value
  std::vector<JS::Token> none;
  JS::ParseContext pc;
  pc.tokenizer.addData(&none);
  std::vector<int> v;
  PBT_CHECK(pc.parseTo(v) != JS::Error::NoError, "an empty recording is accepted");
}
