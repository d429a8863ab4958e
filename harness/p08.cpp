#include "typed.h"
#include "jsutil.h"
using namespace pbt;
using namespace glue;
const char *const PROP_ID = "P08";
const char *const PROP_RULE =
  "Cases are values of the 53-member struct, maps and random token sequences, written through a chain of exactly sized heap buffers "
  "(1-64 bytes each, mixed with larger ones; first buffer possibly empty) supplied by the callback, unlimited or running "
  "out after a while, under both styles; and token sequences written to a SerializerContext whose string has any initial size, flushed between any tokens. Oracle: the text produced by serializeStruct into one growing string; address "
  "sanitizer for writes outside a buffer. Non-trivial: at least 3 buffers were used, or the string was flushed or grew.";
void prop_init() {}

struct Chain
{
  std::vector<std::unique_ptr<char[]>> bufs;
  std::vector<size_t> sizes;
  std::string done;
};

template <typename F>
static void check(Src &s, Ctx &c, const std::string &want, const JS::SerializerOptions &o, F write)
{
  Chain ch;
  size_t style = s.draw(4);
  size_t fixed = 1 + s.draw(40);
  size_t limit = s.chance(1, 4) ? s.draw(30) : SIZE_MAX; // number of buffers that will be supplied
  auto next = [&]() -> size_t {
    switch (style)
    {
    case 0: return 1;
    case 1: return fixed;
    case 2: return 1 + s.draw(8);
    default: return s.chance(1, 5) ? 1 + s.draw(300) : 1 + s.draw(40);
    }
  };
  JS::Serializer ser;
  ser.setOptions(o);
  bool started = false;
  size_t supplied = 0;
  std::string ovr; // everything in filled buffers
  char *cur = nullptr;
  size_t cursize = 0;
  auto supply = [&](JS::Serializer &x, size_t n) {
    if (cur)
      ch.done.append(cur, cursize); // a buffer is only left when it is full
    cur = nullptr;
    if (supplied >= limit)
      return;
    supplied++;
    ch.bufs.emplace_back(new char[n ? n : 1]);
    memset(ch.bufs.back().get(), 0x5a, n ? n : 1);
    cur = ch.bufs.back().get();
    cursize = n;
    x.setBuffer(cur, n);
  };
  int mode = int(s.draw(3)); // no first buffer / first buffer set / empty first buffer
  if (mode == 1)
    supply(ser, next());
  else if (mode == 2)
    ser.setBuffer(nullptr, 0);
  ser.setRequestBufferCallback([&](JS::Serializer &x) { supply(x, next()); });
  (void)started;
  bool ok = write(ser);
  std::string got = ch.done;
  if (cur)
    got.append(cur, ser.currentBuffer().used);
  if (c.verbose)
  {
    c.describe("expected", printable(want));
    c.describe("written", printable(got));
    c.describe("buffers", std::to_string(supplied) + (limit == SIZE_MAX ? "" : " of at most " + std::to_string(limit)));
  }
  c.identity(want + fmt("|%zu %zu %zu %d", style, fixed, limit, mode));
  if (limit == SIZE_MAX)
    PBT_CHECK(ok && got == want, "bytes in the buffers differ");
  else
  {
    PBT_CHECK(got.size() <= want.size() && want.compare(0, got.size(), got) == 0, "bytes in the buffers are not a prefix of the text");
    c.label(got == want ? "enough buffers" : "ran out of buffers");
  }
  c.nontrivial = supplied >= 3;
}

static JS::Token tok(const std::string *name, JS::Type t, const std::string &v)
{
  JS::Token k;
  if (name)
  {
    k.name = JS::DataRef(name->data(), name->size());
    k.name_type = JS::Type::String;
  }
  k.value = JS::DataRef(v.data(), v.size());
  k.value_type = t;
  return k;
}
struct TV { bool named; std::string name; JS::Type t; std::string v; };
static void flat(const ref::JV &v, bool named, const std::string &n, std::vector<TV> &o)
{
  switch (v.k)
  {
  case ref::Null: o.push_back({named, n, JS::Type::Null, "null"}); break;
  case ref::Bool: o.push_back({named, n, JS::Type::Bool, v.b ? "true" : "false"}); break;
  case ref::Num: o.push_back({named, n, JS::Type::Number, v.s}); break;
  case ref::Str: o.push_back({named, n, JS::Type::String, ref::escape(v.s)}); break;
  case ref::Arr:
    o.push_back({named, n, JS::Type::ArrayStart, "["});
    for (auto &x : v.a)
      flat(x, false, "", o);
    o.push_back({false, "", JS::Type::ArrayEnd, "]"});
    break;
  case ref::Obj:
    o.push_back({named, n, JS::Type::ObjectStart, "{"});
    for (auto &x : v.o)
      flat(x.second, true, ref::escape(x.first), o);
    o.push_back({false, "", JS::Type::ObjectEnd, "}"});
    break;
  }
}

// SerializerContext: a growing string, of any size at the start, flushed at any time
static void growing(Src &s, Ctx &c, const JS::SerializerOptions &o)
{
  ref::JV v = ref::genDoc(s);
  if (s.chance(1, 3))
  {
    // long strings cross several sizes of the growing string in one write
    for (size_t n = 1 + s.draw(3); n; n--)
    {
      ref::JV x = ref::JV::str(std::string(s.boolean() ? 4000 + s.draw(300) : s.draw(20000), char('a' + s.draw(26))));
      if (v.k == ref::Arr)
        v.a.push_back(x);
      else
        v.o.emplace_back("long" + std::to_string(n), x);
    }
  }
  std::vector<TV> toks;
  flat(v, false, "", toks);
  static const size_t sizes[] = {0, 1, 2, 3, 7, 8, 64, 100, 4095, 4096, 5000};
  std::string out(sizes[s.draw(11)], 'x');
  size_t start = out.size(), flushes = 0;
  {
    JS::SerializerContext sc(out);
    sc.serializer.setOptions(o);
    size_t often = 1 + s.draw(20);
    for (auto &t : toks)
    {
      PBT_CHECK(sc.serializer.write(tok(t.named ? &t.name : nullptr, t.t, t.v)), "writing a token failed");
      if (s.chance(1, often))
      {
        sc.flush();
        flushes++;
      }
    }
    if (s.boolean())
    {
      sc.flush();
      flushes++;
    }
  }
  std::string big(out.size() + (1 << 16), '\0');
  JS::Serializer one(&big[0], big.size());
  one.setOptions(o);
  for (auto &t : toks)
    PBT_CHECK(one.write(tok(t.named ? &t.name : nullptr, t.t, t.v)), "writing into one large buffer failed");
  big.resize(one.currentBuffer().used);
  if (c.verbose)
  {
    c.describe("expected", printable(big));
    c.describe("written", printable(out));
    c.describe("string", fmt("%zu bytes at the start, flushed %zu times", start, flushes));
  }
  c.identity(big + fmt("|%zu %zu", start, flushes));
  PBT_CHECK(out == big, "the growing string differs");
  c.label("growing string");
  c.nontrivial = flushes > 0 || big.size() > start;
}

void run_case(Src &s, Ctx &c)
{
  JS::SerializerOptions o(s.boolean() ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact);
  if (s.chance(1, 4))
    o.setShiftSize((unsigned char)(s.draw(5)));
  if (s.chance(1, 4))
    return growing(s, c, o);
  if (s.chance(1, 3))
  {
    ref::JV v = ref::genDoc(s);
    if (s.chance(1, 8))
    {
      ref::JV x = ref::JV::str(std::string(s.draw(9000), 'q'));
      for (size_t n = s.draw(40); n; n--)
        if (x.s.size())
          x.s[s.draw(x.s.size())] = char('a' + s.draw(26));
      if (v.k == ref::Arr)
        v.a.push_back(x);
      else
        v.o.emplace_back("long", x);
    }
    std::vector<TV> toks;
    flat(v, false, "", toks);
    std::string big(1 << 20, '\0');
    JS::Serializer one(&big[0], big.size());
    one.setOptions(o);
    bool k = true;
    for (auto &t : toks)
      k = k && one.write(tok(t.named ? &t.name : nullptr, t.t, t.v));
    PBT_CHECK(k, "writing into one large buffer failed");
    big.resize(one.currentBuffer().used);
    ref::JV back;
    std::string e;
    PBT_CHECK(ref::parse(big, back, &e) && ref::equal(v, back), "token sequence written wrongly: " + printable(big));
    c.label("tokens");
    check(s, c, big, o, [&](JS::Serializer &x) {
      bool r = true;
      for (auto &t : toks)
        r = x.write(tok(t.named ? &t.name : nullptr, t.t, t.v)) && r;
      return r;
    });
    return;
  }
  ty::U u;
  ty::genSome(s, u);
  std::string want = JS::serializeStruct(u, o);
  c.label("struct");
  check(s, c, want, o, [&](JS::Serializer &x) {
    JS::Token t;
    JS::TypeHandler<ty::U>::from(u, t, x);
    return true;
  });
}
size_t fixed_count() { return 0; }
void run_fixed(size_t, Ctx &) {}
