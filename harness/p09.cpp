#define JS_STL_MAP
#include "jsutil.h"
#include <map>
using namespace pbt;
using namespace glue;
const char *const PROP_ID = "P09";
const char *const PROP_RULE =
  "Cases are strings of 0-300 characters: plain runs with one to four special characters at any offset, dense mixes of quotes, "
  "backslashes, control characters, NUL, multi-byte text and arbitrary bytes. They are serialized (as value, array element, map "
  "key) and decoded by the reference parser, and spelled in random legal JSON (raw, short escapes, \\u escapes in both cases, "
  "surrogate pairs) and parsed by the library into std::string values and map keys, plus strings with malformed escapes parsed "
  "in two different surroundings. Non-trivial: the string needs or uses at least one escape or multi-byte character.";
void prop_init() {}

struct S
{
  std::string v;
  std::vector<std::string> l;
  JS_OBJ(v, l);
};

static void out(const std::string &x, Ctx &c)
{
  S s;
  s.v = x;
  s.l = {x, "", x};
  std::map<std::string, std::string> m;
  m[x] = x;
  m[x + "2"] = "q";
  for (int pretty = 0; pretty < 2; pretty++)
  {
    JS::SerializerOptions o(pretty ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact);
    std::string t = JS::serializeStruct(s, o), e;
    ref::JV j;
    PBT_CHECK(ref::parse(t, j, &e), "invalid JSON written: " + printable(t) + " " + e);
    const ref::JV *v = j.find("v"), *l = j.find("l");
    PBT_CHECK(v && l && v->k == ref::Str && v->s == x, "value reads back as " + printable(v ? v->s : ""));
    PBT_CHECK(l->a.size() == 3 && l->a[0].s == x && l->a[1].s.empty() && l->a[2].s == x, "array elements");
    S back;
    JS::ParseContext pc(t.data(), t.size());
    PBT_CHECK(pc.parseTo(back) == JS::Error::NoError && back.v == x && back.l == s.l, "library reads back " + printable(back.v));
    t = JS::serializeStruct(m, o);
    ref::JV k;
    PBT_CHECK(ref::parse(t, k, &e), "invalid JSON written for a map: " + printable(t) + " " + e);
    const ref::JV *mv = k.find(x), *m2 = k.find(x + "2");
    PBT_CHECK(k.o.size() == 2 && mv && mv->s == x && m2 && m2->s == "q", "map key");
    std::map<std::string, std::string> mb;
    JS::ParseContext pm(t.data(), t.size());
    PBT_CHECK(pm.parseTo(mb) == JS::Error::NoError && mb == m, "map read back");
  }
}

static void in(const std::string &x, const std::string &sp, Ctx &c)
{
  std::string t = "{\"v\":\"" + sp + "\",\"l\":[\"" + sp + "\" , \"" + sp + "\"]}";
  ref::JV j;
  std::string e;
  PBT_CHECK(ref::parse(t, j, &e) && j.o[0].second.s == x, "HARNESS: spelling " + e);
  Exact b(t);
  S s;
  s.v = "old contents";
  JS::ParseContext pc(b.data(), b.size());
  PBT_CHECK(pc.parseTo(s) == JS::Error::NoError, "legal string refused");
  PBT_CHECK(s.v == x, "decoded to " + printable(s.v));
  PBT_CHECK(s.l.size() == 2 && s.l[0] == x && s.l[1] == x, "element decoded to " + printable(s.l.empty() ? "" : s.l[0]));
  std::string mt = "{\"" + sp + "\":\"" + sp + "\"}";
  Exact mb(mt);
  std::map<std::string, std::string> m;
  JS::ParseContext pm(mb.data(), mb.size());
  PBT_CHECK(pm.parseTo(m) == JS::Error::NoError, "map refused");
  PBT_CHECK(m.size() == 1 && m.begin()->first == x && m.begin()->second == x,
            "map key decoded to " + printable(m.empty() ? "" : m.begin()->first));
}

static void malformed(const std::string &sp, Ctx &c)
{
  // what follows the string must not matter
  std::string r[3];
  JS::Error er[3];
  static const char *const after[] = {"\"]", "\",\"00000000000000\"]", "\"  ,\"\\uDC00ABCDEF\",1,true]"};
  for (int i = 0; i < 3; i++)
  {
    std::string t = std::string("[\"") + sp + after[i];
    Exact b(t);
    JS::ParseContext pc(b.data(), b.size());
    pc.nextToken();
    pc.nextToken();
    r[i] = "keep";
    er[i] = pc.error != JS::Error::NoError ? pc.error : JS::TypeHandler<std::string>::to(r[i], pc);
    PBT_CHECK(er[i] == er[0] && r[i] == r[0], "decoded differently in front of other text: " + printable(r[0]) + " / " + printable(r[i]));
    PBT_CHECK(r[i].size() <= std::max<size_t>(sp.size(), 4), "more characters than the string has");
  }
}

static bool special(const std::string &x)
{
  for (unsigned char ch : x)
    if (ch < 32 || ch == '"' || ch == '\\' || ch >= 128)
      return true;
  return false;
}

void run_case(Src &s, Ctx &c)
{
  std::string x;
  size_t kind = s.draw(4);
  if (kind == 0)
    x = ref::genString(s, 300, true, true);
  else if (kind == 1)
  {
    x.assign(size_t(s.draw(s.boolean() ? 70 : 300)), char('a' + s.draw(26)));
    for (size_t k = 1 + s.draw(4); k-- > 0 && !x.empty();)
      x[s.draw(x.size())] = s.boolean() ? "\"\\/\b\f\n\r\t\x01\x1f\x7f"[s.draw(11)] : char(s.draw(256));
  }
  else if (kind == 2)
    for (size_t n = s.draw(60); n-- > 0;)
      ref::genChar(s, x, false);
  else
    x = ref::genString(s, 80, false, true);
  c.identity(x);
  if (c.verbose)
    c.describe("string", printable(x));
  c.nontrivial = special(x);
  switch (s.draw(3))
  {
  case 0:
    c.label("written");
    out(x, c);
    break;
  case 1:
  {
    std::string sp = ref::spell(s, x);
    c.identity(sp);
    if (c.verbose)
      c.describe("spelled", printable(sp));
    c.label("read");
    in(x, sp, c);
    c.nontrivial = c.nontrivial || sp.find('\\') != std::string::npos;
    break;
  }
  default:
  {
    std::string sp = ref::spell(s, x);
    static const char *const bad[] = {"\\u12", "\\u", "\\uZZZZ", "\\ud83d", "\\udc00", "\\ud83d\\u", "\\ud83d\\u12", "\\ud83d\\ud83d", "\\ud83d\\uZZZZ",
                                      "\\ud83d\\n", "\\x", "\\0", "\\u00g0", "\\uD83", "\\ud83d\\udc", "\\'", "\\u 123", "\\uD800\\uE000"};
    for (size_t k = 1 + s.draw(2); k-- > 0;)
    {
      size_t at = s.chance(1, 2) ? sp.size() : s.draw(sp.size() + 1);
      // do not tear an existing escape apart at the end of the string: a closing quote must stay a closing quote
      sp.insert(at, s.pick(bad));
    }
    // the string has to end where we say it ends
    size_t p = 0;
    bool ok = true;
    for (; p < sp.size(); p++)
    {
      if (sp[p] == '"')
        ok = false;
      if (sp[p] == '\\')
      {
        p++;
        if (p >= sp.size())
          ok = false;
      }
    }
    if (!ok)
    {
      c.nontrivial = false;
      c.label("skipped");
      return;
    }
    c.identity(sp);
    if (c.verbose)
      c.describe("spelled", printable(sp));
    c.label("malformed escape");
    malformed(sp, c);
    c.nontrivial = true;
    break;
  }
  }
}
size_t fixed_count() { return 4; }
void run_fixed(size_t i, Ctx &c)
{
  if (i == 0) // every byte at every offset up to 40
    for (int b = 0; b < 256; b++)
      for (size_t n = 1; n <= 40; n++)
      {
        std::string x(n, 'a');
        x[n - 1 - (size_t(b) % n)] = char(b);
        if (c.verbose)
        {
          c.desc.clear();
          c.describe("string", printable(x));
        }
        out(x, c);
        in(x, b == '"' || b == '\\' || b < 32 ? ref::escape(x) : x, c);
      }
  else if (i == 1) // every code point boundary in \u form
    for (uint32_t cp : {0u, 1u, 0x1fu, 0x20u, 0x7fu, 0x80u, 0x7ffu, 0x800u, 0xfffu, 0x1000u, 0xd7ffu, 0xe000u, 0xfffdu, 0xffffu, 0x10000u, 0x10001u,
                        0x103ffu, 0x10400u, 0xfffffu, 0x100000u, 0x10fc00u, 0x10ffffu})
    {
      std::string u, x;
      ref::Parser::utf8(u, cp);
      std::string sp = cp < 0x10000 ? fmt("\\u%04x", cp) : fmt("\\u%04X\\u%04x", 0xd800 + ((cp - 0x10000) >> 10), 0xdc00 + ((cp - 0x10000) & 0x3ff));
      if (c.verbose)
      {
        c.desc.clear();
        c.describe("string", sp);
      }
      for (const char *pre : {"", "a", "\\\\", "xyz"})
        for (const char *post : {"", "a", "0", "\\n"})
        {
          std::string d = std::string(!strcmp(pre, "\\\\") ? "\\" : pre) + u + (!strcmp(post, "\\n") ? "\n" : post);
          in(d, pre + sp + post, c);
          out(d, c);
        }
    }
  else if (i == 2)
    for (const char *b : {"\\u12", "\\u", "\\ud83d", "\\ud83d\\u", "\\ud83d\\u12", "\\ud83d\\uZZZZ", "abc\\u00", "\\x", "\\ud83d\\udc", "\\ud83d\\"
                                                                                                                                          "u0"})
      malformed(b, c);
  else
    in("/", "\\/", c);
  c.identity(std::to_string(i));
  c.nontrivial = true;
}
