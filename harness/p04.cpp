#include "refjson.h"
#include "relaxed.h"
#include "p04_job.h"
using namespace pbt;
const char *const PROP_ID = "P04";
const char *const PROP_RULE =
  "Cases are strict, relaxed and damaged documents biased to long strings, names, numbers, words, comments and whitespace runs "
  "(8-140 characters, with the deciding character at every offset), whole and cut into buffers, under random switches; typed "
  "documents of a 53-member struct; and strings to be serialized. Every case runs in the scalar, SSE2, SSE4.2, AVX2 and NEON "
  "(intrinsics emulated) builds. Oracle: token dump, error code and text, parsed value, serialized text equal to the scalar "
  "build's. Non-trivial: the text has a run of at least 16 characters for a vector scanner.";
void prop_init() {}
#define X(n) std::string p04_run_##n(const P04Job &);
X(scalar) X(sse2) X(sse42) X(neon)
#ifndef P04_NO_AVX2
X(avx2)
#endif
#undef X
static const P04Build BUILDS[] = {{"scalar", p04_run_scalar}, {"sse2", p04_run_sse2}, {"sse42", p04_run_sse42}, {"neon", p04_run_neon},
#ifndef P04_NO_AVX2
                                  {"avx2", p04_run_avx2},
#endif
};

static void check(const P04Job &j, Ctx &c)
{
  std::string id = j.text + "|" + std::to_string(j.sw) + "|";
  for (size_t x : j.cuts)
    id += std::to_string(x) + ",";
  for (auto &s : j.strings)
    id += "|" + s;
  c.identity(id);
  if (c.verbose)
  {
    c.describe("text", printable(j.text));
    c.describe("switches", rel::Sw::from(j.sw).show());
    std::string k;
    for (size_t x : j.cuts)
      k += std::to_string(x) + " ";
    c.describe("cuts", k);
    for (auto &s : j.strings)
      c.describe("string", printable(s));
  }
  std::string want = BUILDS[0].run(j);
  for (size_t i = 1; i < sizeof BUILDS / sizeof *BUILDS; i++)
  {
    std::string got = BUILDS[i].run(j);
    if (got != want)
    {
      size_t k = 0;
      while (k < got.size() && k < want.size() && got[k] == want[k])
        k++;
      size_t b = k > 60 ? k - 60 : 0;
      fail(std::string(BUILDS[i].name) + " differs from scalar: ..." + printable(got.substr(b, 160)) + " against ..." +
           printable(want.substr(b, 160)));
    }
  }
  size_t run = 0, best = 0;
  for (char ch : j.text)
  {
    run = strchr("{}[],:\"", ch) && ch ? 0 : run + 1;
    best = std::max(best, run);
  }
  c.nontrivial = best >= 16;
  for (auto &s : j.strings)
    c.nontrivial = c.nontrivial || s.size() >= 16;
}

// a run of n characters of one class, possibly with one other character inside
static std::string runOf(Src &s, size_t cls, size_t n)
{
  std::string o;
  switch (cls)
  {
  case 0: o.assign(n, char('a' + s.draw(26))); break;                     // word or string contents
  case 1:                                                                 // number
    for (size_t i = 0; i < n; i++)
      o += "0123456789"[s.draw(10)];
    if (s.chance(1, 3) && n > 2)
      o[1 + s.draw(n - 1)] = "+-.eE"[s.draw(5)];
    break;
  case 2: o.assign(n, " \t\n\r"[s.draw(4)]); break;                        // whitespace
  default:
    for (size_t i = 0; i < n; i++)
      o += char(s.range(33, 126));
    break;
  }
  if (n && s.chance(1, 2))
  {
    static const unsigned char odd[] = {'"', '\\', '\n', 0x80, 0xff, 0xc3, 0x7f, 0x1f, ' ', '/', ':', ',', ']', '}', '@', '[', '^', '`', '{', 'z', 'Z', 'A', '0', '9', '.', '-', '+', 1, 0x0b, 'E', '_', 0};
    o[s.draw(n)] = s.chance(1, 3) ? char(s.draw(256)) : char(odd[s.draw(sizeof odd)]);
  }
  return o;
}

void run_case(Src &s, Ctx &c)
{
  P04Job j;
  size_t kind = s.weighted({5, 3, 3, 2, 2});
  j.sw = s.chance(1, 2) ? 0 : unsigned(s.draw(16));
  if (kind == 0)
  {
    // a document assembled from runs
    c.label("runs");
    std::string &t = j.text;
    auto len = [&]() { return s.chance(1, 3) ? size_t(s.draw(140)) : size_t(s.range(8, 40)); };
    auto ws = [&]() {
      std::string w = s.chance(1, 2) ? runOf(s, 2, len()) : "";
      if ((j.sw & 8) && s.chance(1, 3))
        w += "//" + runOf(s, 3, len()) + (s.chance(7, 8) ? "\n" : "");
      return w;
    };
    bool obj = s.boolean();
    t += std::string(s.draw(20), ' '); // alignment
    t += obj ? "{" : "[";
    size_t n = 1 + s.draw(4);
    for (size_t i = 0; i < n; i++)
    {
      if (i)
        t += (j.sw & 2) && s.chance(1, 3) ? "\n" : ",";
      t += ws();
      if (obj)
      {
        std::string name = runOf(s, s.boolean() ? 0 : 3, len());
        t += (j.sw & 1) && s.chance(1, 2) ? name : "\"" + name + "\"";
        t += ws() + ":" + ws();
      }
      switch (s.draw(5))
      {
      case 0: t += "\"" + runOf(s, s.boolean() ? 0 : 3, len()) + "\""; break;
      case 1: t += runOf(s, 1, len()); break;
      case 2: t += runOf(s, 0, len()); break;
      case 3: t += s.pick(std::vector<std::string>{"true", "false", "null", "1", "[]", "{}"}); break;
      case 4: t += "\"" + ref::spell(s, ref::genString(s, 140, true)) + "\""; break;
      }
      t += ws();
    }
    t += obj ? "}" : "]";
  }
  else if (kind == 1)
  {
    c.label("relaxed");
    rel::Printer p(s, rel::Sw::from(j.sw));
    j.text = p.document(ref::genDoc(s)).text;
  }
  else if (kind == 2)
  {
    c.label("strict");
    j.text = ref::text(s, ref::genDoc(s));
  }
  else if (kind == 3)
  {
    c.label("typed");
    ref::JV v = ref::JV::obj();
    static const char *const names[] = {"s", "d", "f", "i64", "u64", "vs", "vi", "vd", "mp", "us", "jo", "ja", "joa", "b", "optc", "mvs", "vb", "other_unknown_member_name"};
    size_t n = 1 + s.draw(6);
    for (size_t i = 0; i < n; i++)
    {
      const char *nm = s.pick(names);
      ref::JV e;
      if (s.chance(1, 8))
        e = ref::genValue(s, ref::GenOpt(), 2);
      else if (!strcmp(nm, "s") || !strcmp(nm, "optc"))
        e = ref::JV::str(ref::genString(s, 140, true));
      else if (!strcmp(nm, "vs") || !strcmp(nm, "us"))
      {
        e = ref::JV::arr();
        for (size_t k = s.draw(4); k-- > 0;)
          e.a.push_back(ref::JV::str(ref::genString(s, 100, true)));
      }
      else if (nm[0] == 'v')
      {
        e = ref::JV::arr();
        for (size_t k = s.draw(6); k-- > 0;)
          e.a.push_back(nm[1] == 'b' ? ref::JV::boolean(s.boolean()) : ref::JV::num(ref::genNumber(s)));
      }
      else if (nm[0] == 'm')
      {
        e = ref::JV::obj();
        for (size_t k = s.draw(4); k-- > 0;)
          e.o.emplace_back(ref::genString(s, 60), ref::JV::num(ref::genNumber(s)));
      }
      else if (nm[0] == 'j')
        e = ref::genDoc(s);
      else if (nm[0] == 'b')
        e = ref::JV::boolean(s.boolean());
      else
        e = ref::JV::num(ref::genNumber(s));
      v.o.emplace_back(nm, e);
    }
    j.text = ref::text(s, v, false);
    j.typed = true;
  }
  else
  {
    c.label("strings");
    j.text = "[]";
    size_t n = 1 + s.draw(3);
    for (size_t i = 0; i < n; i++)
    {
      std::string x = ref::genString(s, 140, true, true);
      if (s.boolean())
      {
        x = std::string(size_t(s.draw(100)), 'a');
        for (size_t k = s.draw(4); k-- > 0 && !x.empty();)
          x[s.draw(x.size())] = char(s.draw(256));
      }
      j.strings.push_back(x);
    }
  }
  if (kind < 3 && s.chance(1, 3))
    j.text = ref::mutate(s, j.text);
  if (kind < 3 && s.chance(1, 4) && !j.text.empty())
    for (size_t k = 1 + s.draw(5); k-- > 0;)
      j.cuts.push_back(s.draw(j.text.size() + 1));
  std::sort(j.cuts.begin(), j.cuts.end());
  check(j, c);
}
size_t fixed_count() { return 12; }
void run_fixed(size_t i, Ctx &c)
{
  // one deciding character at every offset of a run of every length up to 70, for each scanner (0-5), and every byte
  // value at a few offsets (6-11)
  bool bytes = i >= 6;
  i %= 6;
  static const size_t lens[] = {16, 17, 31, 32, 33, 48, 64, 66};
  for (size_t n = 1; n <= 70; n++)
  {
    if (bytes && std::find(lens, lens + 8, n) == lens + 8)
      continue;
    for (size_t k = 0; k < (bytes ? 1024 : n); k++)
    {
      size_t at = bytes ? (k & 3) * (n - 1) / 3 : k;
      P04Job j;
      std::string pre, post, r;
      char odd;
      switch (i)
      {
      case 0: pre = "[\""; post = "\"]"; r.assign(n, 'x'); odd = '\\'; break;
      case 1: pre = "[\""; post = "\",1]"; r.assign(n, 'x'); odd = '"'; break;
      case 2: pre = "["; post = "1]"; r.assign(n, ' '); odd = "\n\t\r,"[(n + at) % 4]; break;
      case 3: pre = "["; post = "]"; r.assign(n, '7'); odd = ".eE+-, "[(n + at) % 7]; break;
      case 4: pre = "[a"; post = "]"; r.assign(n, 'k'); odd = "_^`-./ ,:"[(n + at) % 9]; j.sw = 1; break;
      default: pre = "[1//"; post = "\n]"; r.assign(n, 'c'); odd = "\n\"/\\"[(n + at) % 4]; j.sw = 8; break;
      }
      r[at] = bytes ? char(k >> 2) : odd;
      j.text = pre + r + post;
      j.strings = {r};
      check(j, c);
      if (c.verbose)
        c.desc.clear();
    }
  }
  c.nontrivial = true;
}
