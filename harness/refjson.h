// Reference JSON: an independent value model, RFC 8259 parser, printers and generators.
// Nothing here uses the library under test.
#pragma once
#include "pbt.h"

namespace ref
{
using pbt::Src;

enum Kind { Null, Bool, Num, Str, Arr, Obj };

struct JV
{
  Kind k = Null;
  bool b = false;
  std::string s; // Str: decoded bytes.  Num: the literal.
  char tag = 0;  // numbers: 'd'/'f' compare as double/float; strings: 'r' always spelled without escapes
  std::vector<JV> a;
  std::vector<std::pair<std::string, JV>> o;
  JV() {}
  static JV null() { return JV(); }
  static JV boolean(bool v) { JV j; j.k = Bool; j.b = v; return j; }
  static JV num(const std::string &t) { JV j; j.k = Num; j.s = t; return j; }
  static JV num(int64_t v) { return num(std::to_string(v)); }
  static JV str(const std::string &t) { JV j; j.k = Str; j.s = t; return j; }
  static JV arr() { JV j; j.k = Arr; return j; }
  static JV obj() { JV j; j.k = Obj; return j; }
  const JV *find(const std::string &n) const
  {
    for (auto &p : o)
      if (p.first == n)
        return &p.second;
    return nullptr;
  }
};

// canonical form of a decimal literal: sign, digits without leading/trailing zeros, exponent
inline std::string canonNum(const std::string &t)
{
  bool neg = false;
  size_t i = 0;
  if (i < t.size() && (t[i] == '-' || t[i] == '+'))
    neg = t[i++] == '-';
  std::string dig;
  long long exp = 0;
  bool dot = false;
  for (; i < t.size(); i++)
  {
    if (t[i] == '.')
      dot = true;
    else if (t[i] >= '0' && t[i] <= '9')
    {
      dig += t[i];
      if (dot)
        exp--;
    }
    else
      break;
  }
  if (i < t.size())
    exp += std::max(-1000000000ll, std::min(1000000000ll, strtoll(t.c_str() + i + 1, nullptr, 10)));
  size_t z = dig.find_first_not_of('0');
  if (z == std::string::npos)
    return neg ? "-0" : "0";
  dig.erase(0, z);
  while (dig.back() == '0')
  {
    dig.pop_back();
    exp++;
  }
  return (neg ? "-" : "") + dig + "e" + std::to_string(exp);
}

inline bool equal(const JV &x, const JV &y, bool numbers_by_value = true, std::string *where = nullptr)
{
  auto no = [&](const char *w) {
    if (where)
      *where = w + *where;
    return false;
  };
  if (x.k != y.k)
    return no("kind");
  switch (x.k)
  {
  case Null:
    return true;
  case Bool:
    return x.b == y.b || no("bool");
  case Num:
    if (x.tag == 'd' || y.tag == 'd')
      return (strtod(x.s.c_str(), nullptr) == strtod(y.s.c_str(), nullptr) && (x.s[0] == '-') == (y.s[0] == '-')) || no("double");
    if (x.tag == 'f' || y.tag == 'f')
      return (strtof(x.s.c_str(), nullptr) == strtof(y.s.c_str(), nullptr) && (x.s[0] == '-') == (y.s[0] == '-')) || no("float");
    return (numbers_by_value ? canonNum(x.s) == canonNum(y.s) : x.s == y.s) || no("number");
  case Str:
    return x.s == y.s || no("string");
  case Arr:
    if (x.a.size() != y.a.size())
      return no("array size");
    for (size_t i = 0; i < x.a.size(); i++)
      if (!equal(x.a[i], y.a[i], numbers_by_value, where))
        return no(("[" + std::to_string(i) + "].").c_str());
    return true;
  case Obj:
    if (x.o.size() != y.o.size())
      return no("object size");
    for (size_t i = 0; i < x.o.size(); i++)
    {
      if (x.o[i].first != y.o[i].first)
        return no(("name " + x.o[i].first + " vs " + y.o[i].first).c_str());
      if (!equal(x.o[i].second, y.o[i].second, numbers_by_value, where))
        return no(("." + x.o[i].first).c_str());
    }
    return true;
  }
  return false;
}

// ---------------------------------------------------------------- tokens and parser
struct Tok
{
  char kind;        // '{' '}' '[' ']' 's' 'n' 't'(bool) '0'(null)
  bool named;
  std::string name; // raw
  std::string value; // raw
  size_t begin = 0;  // offset of the value text
  bool operator==(const Tok &t) const
  {
    return kind == t.kind && named == t.named && name == t.name && value == t.value;
  }
  std::string show() const
  {
    return std::string("(") + (named ? pbt::printable(name) + ":" : "") + kind + " " + pbt::printable(value) + ")";
  }
};

struct Parser
{
  const std::string &t;
  bool lenient;      // lexemes only: numbers are [-+0-9][-+.eE0-9]*, strings any bytes
  size_t p = 0;
  std::string err;
  std::vector<Tok> toks;
  int maxdepth = 0;
  bool tolerated = false; // lenient only: a scalar array element was followed by ",]", on which there is no claim
  Parser(const std::string &text, bool lenient_) : t(text), lenient(lenient_) {}

  bool bad(const char *m)
  {
    if (err.empty())
      err = m;
    return false;
  }
  void ws()
  {
    while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r'))
      p++;
  }
  static int hex(char c)
  {
    return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
  }
  static void utf8(std::string &o, uint32_t c)
  {
    if (c < 0x80)
      o += char(c);
    else if (c < 0x800)
    {
      o += char(0xc0 | (c >> 6));
      o += char(0x80 | (c & 63));
    }
    else if (c < 0x10000)
    {
      o += char(0xe0 | (c >> 12));
      o += char(0x80 | ((c >> 6) & 63));
      o += char(0x80 | (c & 63));
    }
    else
    {
      o += char(0xf0 | (c >> 18));
      o += char(0x80 | ((c >> 12) & 63));
      o += char(0x80 | ((c >> 6) & 63));
      o += char(0x80 | (c & 63));
    }
  }
  // at the opening quote; raw = text between the quotes
  bool string(std::string &raw, std::string &dec)
  {
    p++;
    size_t b = p;
    while (true)
    {
      if (p >= t.size())
        return bad("unterminated string");
      unsigned char c = (unsigned char)t[p];
      if (c == '"')
      {
        raw = t.substr(b, p - b);
        p++;
        return true;
      }
      if (c == '\\')
      {
        if (p + 1 >= t.size())
          return bad("unterminated string");
        char e = t[p + 1];
        p += 2;
        if (lenient)
          continue;
        switch (e)
        {
        case '"': case '\\': case '/': dec += e; break;
        case 'b': dec += '\b'; break;
        case 'f': dec += '\f'; break;
        case 'n': dec += '\n'; break;
        case 'r': dec += '\r'; break;
        case 't': dec += '\t'; break;
        case 'u':
        {
          auto h4 = [&](size_t at, uint32_t &v) {
            v = 0;
            if (at + 4 > t.size())
              return false;
            for (int i = 0; i < 4; i++)
            {
              int h = hex(t[at + size_t(i)]);
              if (h < 0)
                return false;
              v = v * 16 + uint32_t(h);
            }
            return true;
          };
          uint32_t v;
          if (!h4(p, v))
            return bad("bad \\u escape");
          p += 4;
          if (v >= 0xd800 && v < 0xdc00)
          {
            uint32_t lo;
            if (p + 6 <= t.size() && t[p] == '\\' && t[p + 1] == 'u' && h4(p + 2, lo) && lo >= 0xdc00 && lo < 0xe000)
            {
              p += 6;
              v = 0x10000 + ((v - 0xd800) << 10) + (lo - 0xdc00);
            }
            else
              return bad("lone surrogate");
          }
          else if (v >= 0xdc00 && v < 0xe000)
            return bad("lone surrogate");
          utf8(dec, v);
          break;
        }
        default:
          return bad("bad escape");
        }
        continue;
      }
      if (c < 0x20 && !lenient)
        return bad("control character in string");
      dec += char(c);
      p++;
    }
  }
  bool number(std::string &raw)
  {
    size_t b = p;
    if (lenient)
    {
      while (p < t.size() && ((t[p] >= '0' && t[p] <= '9') || strchr("+-.eE", t[p])) && t[p])
        p++;
      raw = t.substr(b, p - b);
      return true;
    }
    if (p < t.size() && t[p] == '-')
      p++;
    auto dig = [&]() { return p < t.size() && t[p] >= '0' && t[p] <= '9'; };
    if (!dig())
      return bad("number");
    if (t[p] == '0')
      p++;
    else
      while (dig())
        p++;
    if (p < t.size() && t[p] == '.')
    {
      p++;
      if (!dig())
        return bad("number");
      while (dig())
        p++;
    }
    if (p < t.size() && (t[p] == 'e' || t[p] == 'E'))
    {
      p++;
      if (p < t.size() && (t[p] == '+' || t[p] == '-'))
        p++;
      if (!dig())
        return bad("number");
      while (dig())
        p++;
    }
    raw = t.substr(b, p - b);
    return true;
  }
  bool value(JV &v, bool named, const std::string &name, int depth)
  {
    maxdepth = std::max(maxdepth, depth);
    ws();
    if (p >= t.size())
      return bad("end of input");
    char c = t[p];
    size_t b = p;
    auto push = [&](char kind, const std::string &raw) {
      toks.push_back(Tok{kind, named, named ? name : std::string(), raw, b});
    };
    if (c == '{')
    {
      p++;
      push('{', "{");
      v = JV::obj();
      ws();
      if (p < t.size() && t[p] == '}')
      {
        toks.push_back(Tok{'}', false, "", "}", p});
        p++;
        return true;
      }
      while (true)
      {
        ws();
        if (p >= t.size() || t[p] != '"')
          return bad("member name");
        std::string raw, dec;
        if (!string(raw, dec))
          return false;
        ws();
        if (p >= t.size() || t[p] != ':')
          return bad("colon");
        p++;
        v.o.emplace_back(lenient ? raw : dec, JV());
        if (!value(v.o.back().second, true, raw, depth + 1))
          return false;
        ws();
        if (p < t.size() && t[p] == ',')
        {
          p++;
          continue;
        }
        if (p < t.size() && t[p] == '}')
        {
          toks.push_back(Tok{'}', false, "", "}", p});
          p++;
          return true;
        }
        return bad("comma or }");
      }
    }
    if (c == '[')
    {
      p++;
      push('[', "[");
      v = JV::arr();
      ws();
      if (p < t.size() && t[p] == ']')
      {
        toks.push_back(Tok{']', false, "", "]", p});
        p++;
        return true;
      }
      while (true)
      {
        v.a.emplace_back();
        if (!value(v.a.back(), false, "", depth + 1))
          return false;
        ws();
        if (p < t.size() && t[p] == ',')
        {
          p++;
          if (lenient && v.a.back().k != Arr && v.a.back().k != Obj)
          {
            ws();
            if (p < t.size() && t[p] == ']')
            {
              tolerated = true;
              toks.push_back(Tok{']', false, "", "]", p});
              p++;
              return true;
            }
          }
          continue;
        }
        if (p < t.size() && t[p] == ']')
        {
          toks.push_back(Tok{']', false, "", "]", p});
          p++;
          return true;
        }
        return bad("comma or ]");
      }
    }
    if (c == '"')
    {
      std::string raw, dec;
      if (!string(raw, dec))
        return false;
      v = JV::str(lenient ? raw : dec);
      b++;
      push('s', raw);
      return true;
    }
    if (c == '-' || (c >= '0' && c <= '9') || (lenient && c == '+'))
    {
      std::string raw;
      if (!number(raw))
        return false;
      v = JV::num(raw);
      push('n', raw);
      return true;
    }
    auto word = [&](const char *w) {
      size_t n = strlen(w);
      if (t.compare(p, n, w) != 0)
        return false;
      if (p + n < t.size())
      {
        char d = t[p + n];
        if ((d >= 'a' && d <= 'z') || (d >= 'A' && d <= 'Z') || (d >= '0' && d <= '9') || d == '_' || d == '^' || d == '`')
          return false;
      }
      p += n;
      return true;
    };
    if (word("true"))
    {
      v = JV::boolean(true);
      push('t', "true");
      return true;
    }
    if (word("false"))
    {
      v = JV::boolean(false);
      push('t', "false");
      return true;
    }
    if (word("null"))
    {
      v = JV::null();
      push('0', "null");
      return true;
    }
    return bad("unexpected character");
  }
};

// whole document: one root value and whitespace
inline bool parse(const std::string &t, JV &v, std::string *err = nullptr, std::vector<Tok> *toks = nullptr)
{
  Parser p(t, false);
  bool ok = p.value(v, false, "", 0);
  if (ok)
  {
    p.ws();
    if (p.p != t.size())
      ok = p.bad("trailing characters");
  }
  if (err)
    *err = p.err + " at " + std::to_string(p.p);
  if (toks)
    *toks = p.toks;
  return ok;
}

// ---------------------------------------------------------------- printing
inline std::string escape(const std::string &s)
{
  std::string o;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
    {
      o += '\\';
      o += char(c);
    }
    else if (c < 32)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
    else
      o += char(c);
  }
  return o;
}

// random but legal spelling of a string; s must be valid UTF-8 if unicode escapes are to be used
inline std::string spell(Src &src, const std::string &s)
{
  std::string o;
  int style = int(src.draw(4)); // 0 minimal, 1 short escapes, 2 mixed, 3 mostly \u
  for (size_t i = 0; i < s.size();)
  {
    unsigned char c = (unsigned char)s[i];
    // decode one UTF-8 character
    uint32_t cp = c;
    size_t n = 1;
    auto cont = [&](size_t k) { return i + k < s.size() && ((unsigned char)s[i + k] & 0xc0) == 0x80; };
    if (c >= 0xc2 && c < 0xe0 && cont(1))
      cp = uint32_t(c & 31) << 6 | ((unsigned char)s[i + 1] & 63), n = 2;
    else if (c >= 0xe0 && c < 0xf0 && cont(1) && cont(2))
      cp = uint32_t(c & 15) << 12 | uint32_t((unsigned char)s[i + 1] & 63) << 6 | ((unsigned char)s[i + 2] & 63), n = 3;
    else if (c >= 0xf0 && c < 0xf5 && cont(1) && cont(2) && cont(3))
      cp = uint32_t(c & 7) << 18 | uint32_t((unsigned char)s[i + 1] & 63) << 12 |
           uint32_t((unsigned char)s[i + 2] & 63) << 6 | ((unsigned char)s[i + 3] & 63),
      n = 4;
    bool raw8 = c >= 0x80 && n == 1; // not valid UTF-8: only the raw byte is possible
    bool must = c == '"' || c == '\\' || c < 32;
    bool use_u = !raw8 && (style == 3 ? src.chance(3, 4) : style == 2 ? src.chance(1, 4) : false);
    if (!use_u && (must || (style >= 1 && c == '/' && src.boolean())))
    {
      const char *sh = nullptr;
      switch (c)
      {
      case '"': sh = "\\\""; break;
      case '\\': sh = "\\\\"; break;
      case '/': sh = "\\/"; break;
      case '\b': sh = "\\b"; break;
      case '\f': sh = "\\f"; break;
      case '\n': sh = "\\n"; break;
      case '\r': sh = "\\r"; break;
      case '\t': sh = "\\t"; break;
      }
      if (sh)
        o += sh;
      else
        use_u = true;
      if (sh)
      {
        i += n;
        continue;
      }
    }
    if (use_u)
    {
      char b[16];
      const char *f = src.boolean() ? "\\u%04X" : "\\u%04x";
      if (cp >= 0x10000)
      {
        snprintf(b, sizeof b, f, 0xd800 + ((cp - 0x10000) >> 10));
        o += b;
        snprintf(b, sizeof b, f, 0xdc00 + ((cp - 0x10000) & 0x3ff));
        o += b;
      }
      else
      {
        snprintf(b, sizeof b, f, cp);
        o += b;
      }
    }
    else
      o.append(s, i, n);
    i += n;
  }
  return o;
}

inline std::string wsgen(Src &src, int style)
{
  // style 0: none, 1: single blanks, 2: short mixes, 3: sometimes long runs
  std::string o;
  size_t n = 0;
  if (style == 1)
    n = src.draw(2);
  else if (style == 2)
    n = src.draw(4);
  else if (style == 3)
    n = src.chance(1, 6) ? size_t(src.range(10, 70)) : size_t(src.draw(4));
  static const char w[] = {' ', '\n', '\t', '\r'};
  if (n > 8)
  {
    char c = w[src.draw(4)];
    o.assign(n, c);
    o[src.draw(n)] = w[src.draw(4)];
    return o;
  }
  for (size_t i = 0; i < n; i++)
    o += style == 1 ? ' ' : w[src.draw(4)];
  return o;
}

struct Print
{
  int ws = 0;
  bool spell = false;
  bool spell_names = true;
};

inline void print(Src *src, const JV &v, const Print &pr, std::string &o)
{
  auto W = [&]() {
    if (src && pr.ws)
      o += wsgen(*src, pr.ws);
  };
  auto S = [&](const std::string &s, bool alt) {
    o += '"';
    o += (src && pr.spell && alt) ? spell(*src, s) : escape(s);
    o += '"';
  };
  switch (v.k)
  {
  case Null: o += "null"; break;
  case Bool: o += v.b ? "true" : "false"; break;
  case Num: o += v.s; break;
  case Str: S(v.s, v.tag != 'r'); break;
  case Arr:
    o += '[';
    W();
    for (size_t i = 0; i < v.a.size(); i++)
    {
      if (i)
      {
        o += ',';
        W();
      }
      print(src, v.a[i], pr, o);
      W();
    }
    o += ']';
    break;
  case Obj:
    o += '{';
    W();
    for (size_t i = 0; i < v.o.size(); i++)
    {
      if (i)
      {
        o += ',';
        W();
      }
      S(v.o[i].first, pr.spell_names);
      W();
      o += ':';
      W();
      print(src, v.o[i].second, pr, o);
      W();
    }
    o += '}';
    break;
  }
}

inline std::string text(const JV &v)
{
  std::string o;
  print(nullptr, v, Print(), o);
  return o;
}

inline std::string text(Src &src, const JV &v, bool spell_names = true)
{
  Print p;
  p.spell_names = spell_names;
  p.ws = int(src.draw(4));
  p.spell = src.boolean();
  std::string o = p.ws ? wsgen(src, p.ws) : "";
  print(&src, v, p, o);
  if (p.ws)
    o += wsgen(src, p.ws);
  return o;
}

// ---------------------------------------------------------------- generators
inline std::string genDigits(Src &src, size_t n)
{
  std::string o;
  size_t mode = src.draw(4);
  for (size_t i = 0; i < n; i++)
    o += char('0' + (mode == 1 ? 9 : mode == 2 ? (src.chance(1, 8) ? src.draw(10) : 0) : src.draw(10)));
  return o;
}

inline std::string genNumber(Src &src)
{
  switch (src.draw(6))
  {
  case 0:
    return std::to_string(src.range(0, 9));
  case 1:
    return std::to_string(src.range(-1000, 1000));
  case 2:
    return std::to_string(int64_t(src.bits64()));
  default:
  {
    std::string o;
    if (src.chance(1, 3))
      o += '-';
    std::string d = genDigits(src, 1 + src.size(30));
    size_t z = d.find_first_not_of('0');
    d = z == std::string::npos ? "0" : d.substr(z);
    o += d;
    if (src.chance(1, 2))
      o += "." + genDigits(src, 1 + src.size(30));
    if (src.chance(1, 3))
    {
      o += src.boolean() ? 'E' : 'e';
      size_t s = src.draw(3);
      if (s)
        o += s == 1 ? '+' : '-';
      o += genDigits(src, 1 + src.draw(src.chance(1, 10) ? 5 : 2));
    }
    return o;
  }
  }
}

inline void genChar(Src &src, std::string &o, bool bytes)
{
  switch (src.weighted({10, 4, 3, 2, 2, 2, 1}))
  {
  case 0: o += char('a' + src.draw(26)); break;
  case 1: o += src.pick("\"\\/{}[]:,' \t\n\r0"[0] ? std::vector<char>{'"', '\\', '/', '{', '}', '[', ']', ':', ',', '\'', ' ', '0'} : std::vector<char>{}); break;
  case 2: o += char(src.range(32, 126)); break;
  case 3: o += char(src.range(1, 31)); break;
  case 4: Parser::utf8(o, uint32_t(src.range(0x80, 0x7ff))); break;
  case 5:
  {
    uint32_t c = uint32_t(src.range(0x800, 0xffff));
    if (c >= 0xd800 && c < 0xe000)
      c = 0xfffd;
    Parser::utf8(o, c);
    break;
  }
  case 6:
    if (bytes && src.boolean())
      o += char(src.range(128, 255));
    else
      Parser::utf8(o, uint32_t(src.range(0x10000, 0x10ffff)));
    break;
  }
}

// text: valid UTF-8 unless bytes; no NUL unless nul
inline std::string genString(Src &src, size_t max = 80, bool bytes = false, bool nul = true)
{
  std::string o;
  size_t mode = src.draw(6);
  size_t n = mode == 5 ? size_t(src.draw(max + 1)) : src.size(20);
  if (mode == 5)
  {
    // long plain run with a few interesting characters: crosses the vector widths
    o.assign(n, char('a' + src.draw(26)));
    size_t k = src.draw(4);
    for (size_t i = 0; i < k && n; i++)
    {
      std::string c;
      genChar(src, c, bytes);
      size_t at = src.draw(o.size() + 1);
      // do not cut a multi-byte character
      while (at > 0 && at < o.size() && ((unsigned char)o[at] & 0xc0) == 0x80)
        at--;
      o.insert(at, c);
    }
  }
  else
    for (size_t i = 0; i < n; i++)
    {
      if (mode < 2)
        o += char('a' + src.draw(26));
      else
        genChar(src, o, bytes);
    }
  if (nul && src.chance(1, 16))
    o.insert(o.begin() + long(src.draw(o.size() + 1)), '\0');
  return o;
}

struct GenOpt
{
  int depth = 4;
  size_t width = 6;
  bool unique_names = true;
  bool empty_names = true;
  bool bytes = false;
};

inline std::string genName(Src &src, const GenOpt &g)
{
  static const char *const pool[] = {"a", "b", "c", "name", "x1", "longer_member_name_than_16", "value", "data"};
  if (src.chance(2, 3))
    return src.pick(pool);
  std::string s = genString(src, 50, g.bytes);
  if (s.empty() && !g.empty_names)
    s = "e";
  return s;
}

inline JV genValue(Src &src, const GenOpt &g, int depth);

inline JV genScalar(Src &src, const GenOpt &g)
{
  switch (src.weighted({3, 2, 1, 3}))
  {
  case 0: return JV::num(genNumber(src));
  case 1: return JV::boolean(src.boolean());
  case 2: return JV::null();
  default: return JV::str(genString(src, 80, g.bytes));
  }
}

inline JV genContainer(Src &src, const GenOpt &g, int depth)
{
  size_t n = src.size(g.width);
  if (src.boolean())
  {
    JV v = JV::obj();
    std::set<std::string> used;
    for (size_t i = 0; i < n; i++)
    {
      std::string name = genName(src, g);
      if (g.unique_names)
      {
        while (used.count(name))
          name += char('a' + src.draw(26));
        used.insert(name);
      }
      v.o.emplace_back(name, genValue(src, g, depth + 1));
    }
    return v;
  }
  JV v = JV::arr();
  for (size_t i = 0; i < n; i++)
    v.a.push_back(genValue(src, g, depth + 1));
  return v;
}

inline JV genValue(Src &src, const GenOpt &g, int depth)
{
  if (depth >= g.depth || src.chance(2, 3))
    return genScalar(src, g);
  return genContainer(src, g, depth);
}

// now and then a value of an extreme size: hundreds of levels around it, or hundreds of neighbours, or a long string;
// the sizes lie around those where a counter of one byte (or, rarely, two) wraps. A container stays the root.
inline void extreme(Src &src, JV &v, unsigned one_in = 300)
{
  if (!src.chance(1, one_in))
    return;
  size_t n = size_t(250 + src.draw(16));
  const bool more = src.chance(1, 3); // a part of the document follows
  switch (src.draw(3))
  {
  case 0: // deep, as the last element or member
  {
    const bool obj = src.boolean();
    JV in = JV::num(int64_t(5));
    if (src.boolean())
      in = v;
    for (; n > 1; n--)
    {
      JV o = obj ? JV::obj() : JV::arr();
      if (obj)
        o.o.emplace_back("d", std::move(in));
      else
        o.a.push_back(std::move(in));
      in = std::move(o);
    }
    if (v.k == Obj)
    {
      v.o.emplace_back("deep_down", std::move(in));
      if (more)
        v.o.emplace_back("after_deep", JV::num(int64_t(6)));
    }
    else if (v.k == Arr)
    {
      v.a.push_back(std::move(in));
      if (more)
        v.a.push_back(JV::num(int64_t(6)));
    }
    break;
  }
  case 1: // wide: scalars, containers or both
  {
    const size_t every = size_t(src.pick(std::vector<int>{1, 7, 1000}));
    for (size_t i = 0; i < n; i++)
    {
      JV e = (i + 1) % every ? JV::num(int64_t(i)) : i & 1 ? JV::arr() : JV::obj();
      if (v.k == Obj)
        v.o.emplace_back("w_" + std::to_string(i), e);
      else if (v.k == Arr)
        v.a.push_back(e);
    }
    break;
  }
  default: // long
    if (src.chance(1, 12))
      n = size_t(65530 + src.draw(12));
    else if (src.chance(1, 3))
      n *= 16;
    std::string t(n, char('a' + src.draw(26)));
    if (src.boolean())
      t[size_t(src.draw(n))] = '"';
    if (v.k == Obj)
      v.o.emplace_back("long", JV::str(t));
    else if (v.k == Arr)
      v.a.push_back(JV::str(t));
    if (more && v.k == Arr)
      v.a.push_back(JV::num(int64_t(6)));
  }
}

// a document with an object or array root
inline JV genDoc(Src &src, const GenOpt &g = GenOpt())
{
  JV v = genContainer(src, g, 0);
  extreme(src, v);
  if (src.chance(1, 16))
  {
    // the same some levels further down, sometimes with neighbours
    for (size_t n = 1 + src.draw(src.boolean() ? 8 : 40); n; n--)
    {
      JV o = src.boolean() ? JV::obj() : JV::arr();
      bool before = src.chance(1, 6), after = src.chance(1, 6);
      if (o.k == Obj)
      {
        if (before)
          o.o.emplace_back("before", JV::num(int64_t(1)));
        o.o.emplace_back("in", std::move(v));
        if (after)
          o.o.emplace_back("after", JV::num(int64_t(2)));
      }
      else
      {
        if (before)
          o.a.push_back(JV::num(int64_t(1)));
        o.a.push_back(std::move(v));
        if (after)
          o.a.push_back(JV::num(int64_t(2)));
      }
      v = std::move(o);
    }
  }
  return v;
}

// structural and lexical damage to a text
inline std::string mutate(Src &src, std::string t)
{
  size_t n = 1 + src.size(3);
  for (size_t i = 0; i < n; i++)
  {
    static const char alpha[] = "{}[],:\"\\ntf0-1.e /\n\t_^x";
    auto any = [&]() -> char { return src.chance(1, 5) ? char(1 + src.draw(255)) : alpha[src.draw(sizeof alpha - 1)]; };
    size_t at = src.draw(t.size() + 1);
    switch (src.draw(7))
    {
    case 0:
      if (at < t.size())
        t.erase(at, 1);
      break;
    case 1:
      t.insert(at, 1, any());
      break;
    case 2:
      if (at < t.size())
        t[at] = any();
      break;
    case 3:
      t.resize(at);
      break;
    case 4:
      if (at + 1 < t.size())
        std::swap(t[at], t[at + 1]);
      break;
    case 5:
    {
      size_t len = src.size(12);
      if (at < t.size())
        t.insert(src.draw(t.size() + 1), t.substr(at, len));
      break;
    }
    case 6:
    {
      // act on a structural character
      std::vector<size_t> pos;
      for (size_t k = 0; k < t.size(); k++)
        if (strchr("{}[],:\"", t[k]) && t[k])
          pos.push_back(k);
      if (pos.empty())
        break;
      size_t k = src.pick(pos);
      size_t op = src.draw(3);
      if (op == 0)
        t.erase(k, 1);
      else if (op == 1)
        t.insert(k, 1, t[k]);
      else
        t[k] = "{}[],:\""[src.draw(7)];
      break;
    }
    }
  }
  return t;
}

} // namespace ref
