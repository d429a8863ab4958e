// The relaxed syntax: a reference reader for every combination of the four switches and a printer that decorates a
// document with the extensions.  Independent of the library.
#pragma once
#include "refjson.h"

namespace rel
{
using pbt::Src;
using ref::JV;
using ref::Tok;

struct Sw
{
  bool ascii = false, newline = false, comma = false, comments = false;
  static Sw from(unsigned b)
  {
    Sw s;
    s.ascii = b & 1;
    s.newline = b & 2;
    s.comma = b & 4;
    s.comments = b & 8;
    return s;
  }
  unsigned bits() const { return unsigned(ascii) | unsigned(newline) << 1 | unsigned(comma) << 2 | unsigned(comments) << 3; }
  std::string show() const
  {
    return std::string(ascii ? "ascii " : "") + (newline ? "newline " : "") + (comma ? "comma " : "") + (comments ? "comments" : "");
  }
};

inline bool isLetter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool isWordChar(char c) { return isLetter(c) || (c >= '0' && c <= '9') || (c && strchr("_^`/.-", c)); }
inline bool isKeyword(const std::string &s) { return s == "true" || s == "false" || s == "null"; }

// Reader of lexemes and structure.  Lexemes are permissive (see ref::Parser::lenient).
struct Reader
{
  const std::string &t;
  Sw sw;
  size_t p = 0;
  std::string err;
  std::vector<Tok> toks;
  bool tolerated = false; // ",]" after a scalar element without the switch: no claim
  Reader(const std::string &text, Sw s) : t(text), sw(s) {}
  bool bad(const char *m)
  {
    if (err.empty())
      err = m;
    return false;
  }
  // skips blanks and comments; with keep_nl stops at a newline. false: unterminated comment
  bool ws(bool keep_nl = false)
  {
    while (p < t.size())
    {
      char c = t[p];
      if (c == ' ' || c == '\t' || c == '\r' || (c == '\n' && !keep_nl))
        p++;
      else if (sw.comments && c == '/' && p + 1 < t.size() && t[p + 1] == '/')
      {
        size_t e = t.find('\n', p);
        if (e == std::string::npos)
        {
          p = t.size();
          return bad("unterminated comment");
        }
        p = e; // the newline itself is handled by the loop
      }
      else
        break;
    }
    return true;
  }
  bool string(std::string &raw)
  {
    size_t b = ++p;
    while (p < t.size())
    {
      if (t[p] == '"')
      {
        raw = t.substr(b, p - b);
        p++;
        return true;
      }
      p += t[p] == '\\' ? 2 : 1;
    }
    p = t.size();
    return bad("unterminated string");
  }
  std::string word()
  {
    size_t b = p;
    while (p < t.size() && isWordChar(t[p]))
      p++;
    return t.substr(b, p - b);
  }
  bool value(bool named, const std::string &name, bool &scalar)
  {
    if (!ws())
      return false;
    if (p >= t.size())
      return bad("end of input");
    char c = t[p];
    size_t b = p;
    scalar = true;
    auto push = [&](char kind, const std::string &raw) { toks.push_back(Tok{kind, named, named ? name : std::string(), raw, b}); };
    auto close = [&](char k) {
      toks.push_back(Tok{k, false, "", std::string(1, k), p});
      p++;
      return true;
    };
    if (c == '{' || c == '[')
    {
      char end = c == '{' ? '}' : ']';
      scalar = false;
      p++;
      push(c, std::string(1, c));
      if (!ws())
        return false;
      if (p < t.size() && t[p] == end)
        return close(end);
      while (true)
      {
        bool sc = false;
        if (c == '{')
        {
          if (!ws())
            return false;
          std::string n;
          if (p < t.size() && t[p] == '"')
          {
            if (!string(n))
              return false;
          }
          else if (sw.ascii && p < t.size() && isLetter(t[p]))
          {
            n = word();
            if (isKeyword(n))
              return bad("keyword as name");
          }
          else
            return bad("member name");
          if (!ws(sw.newline))
            return false;
          if (p >= t.size() || t[p] != ':')
            return bad("colon");
          p++;
          if (!value(true, n, sc))
            return false;
        }
        else if (!value(false, "", sc))
          return false;
        if (!ws(sw.newline))
          return false;
        if (p >= t.size())
          return bad("end of input");
        if (t[p] == end)
          return close(end);
        if (t[p] == ',')
        {
          p++;
          if (!ws())
            return false;
          if (p < t.size() && t[p] == end)
          {
            if (sw.comma)
              return close(end);
            if (c == '[' && sc)
            {
              tolerated = true;
              return close(end);
            }
            return bad("trailing comma");
          }
          continue;
        }
        if (sw.newline && t[p] == '\n')
        {
          p++;
          if (!ws())
            return false;
          if (p < t.size() && t[p] == end)
            return close(end);
          continue;
        }
        return bad("separator");
      }
    }
    if (c == '"')
    {
      std::string raw;
      if (!string(raw))
        return false;
      push('s', raw);
      return true;
    }
    if (c == '-' || c == '+' || (c >= '0' && c <= '9'))
    {
      while (p < t.size() && t[p] && strchr("+-.eE0123456789", t[p]))
        p++;
      push('n', t.substr(b, p - b));
      return true;
    }
    if (isLetter(c))
    {
      std::string w = word();
      if (w == "true" || w == "false")
        push('t', w);
      else if (w == "null")
        push('0', w);
      else if (sw.ascii)
        push('w', w);
      else
        return bad("bare word");
      return true;
    }
    return bad("unexpected character");
  }
  bool document()
  {
    bool sc;
    return value(false, "", sc);
  }
};

struct Printed
{
  std::string text;
  std::vector<Tok> toks; // expected tokens
  Sw used;               // switches without which the text has to be refused
};

struct Printer
{
  Src &src;
  Sw on;
  int ws_style;
  unsigned rate; // how often a decoration is used, out of 8
  bool keep = false; // names and strings keep their content: only identifiers are written without quotes
  Printed out;
  Printer(Src &s, Sw o) : src(s), on(o), ws_style(int(s.draw(4))), rate(unsigned(1 + s.draw(6))) {}

  bool deco() { return src.chance(rate, 8); }
  bool isIdent(const std::string &s)
  {
    if (s.empty() || !isLetter(s[0]) || isKeyword(s))
      return false;
    for (char c : s)
      if (!(isLetter(c) || (c >= '0' && c <= '9') || c == '_'))
        return false;
    return true;
  }
  std::string word()
  {
    std::string w;
    size_t n = src.chance(1, 6) ? size_t(src.range(14, 40)) : size_t(src.range(1, 8));
    for (size_t i = 0; i < n; i++)
      w += i ? "abcdefnrtuxyzABZ019_"[src.draw(20)] : "abftnzAZ"[src.draw(8)];
    if (src.chance(1, 8))
      w = std::string(src.pick(std::vector<const char *>{"tru", "truex", "nul", "nulll", "falsey", "fals", "True", "NULL", "nullnull"}));
    return isKeyword(w) ? w + "x" : w;
  }
  std::string comment()
  {
    std::string c = "//";
    size_t n = src.chance(1, 5) ? size_t(src.range(12, 60)) : src.size(12);
    for (size_t i = 0; i < n; i++)
      c += "a \"\\/{}[],:*'\t1#\rx"[src.draw(18)];
    return c + "\n";
  }
  // blanks and comments; no_nl: a newline would be significant here
  void W(bool no_nl = false)
  {
    bool nl_ok = !(no_nl && on.newline);
    std::string w = ws_style ? ref::wsgen(src, ws_style) : "";
    if (!nl_ok)
      for (auto &c : w)
        if (c == '\n')
          c = ' ';
    if (on.comments && nl_ok && deco() && src.boolean())
    {
      if (!out.text.empty() && isWordChar(out.text.back()) && w.empty())
        w = " ";
      w += comment();
      out.used.comments = true;
      if (src.chance(1, 4))
        w += comment();
      if (ws_style)
        w += ref::wsgen(src, ws_style);
    }
    out.text += w;
  }
  void name(const std::string &n, std::string &raw, bool &ascii)
  {
    ascii = false;
    if (on.ascii && deco() && (!keep || isIdent(n)))
    {
      raw = isIdent(n) ? n : word();
      ascii = true;
      out.used.ascii = true;
      out.text += raw;
      return;
    }
    raw = keep ? ref::escape(n) : ref::spell(src, n);
    out.text += '"' + raw + '"';
  }
  void sep(bool last, bool after_scalar_in_array)
  {
    if (last)
    {
      if (on.comma && deco())
      {
        W(true);
        out.text += ',';
        if (!after_scalar_in_array)
          out.used.comma = true;
        W();
      }
      else
        W();
      return;
    }
    if (on.newline && deco())
    {
      std::string w = ws_style ? ref::wsgen(src, ws_style) : "";
      for (auto &c : w)
        if (c == '\n')
          c = ' ';
      if (on.comments && src.chance(1, 3))
      {
        out.text += (w.empty() ? " " : w) + comment();
        out.used.comments = true;
      }
      else
        out.text += w + "\n";
      out.used.newline = true;
      W();
      return;
    }
    W(true);
    out.text += ',';
    W();
  }
  void value(const JV &v, bool named, const std::string &nm)
  {
    auto push = [&](char k, const std::string &raw) { out.toks.push_back(Tok{k, named, named ? nm : std::string(), raw, 0}); };
    switch (v.k)
    {
    case ref::Null:
      out.text += "null";
      push('0', "null");
      return;
    case ref::Bool:
      out.text += v.b ? "true" : "false";
      push('t', v.b ? "true" : "false");
      return;
    case ref::Num:
      out.text += v.s;
      push('n', v.s);
      return;
    case ref::Str:
    {
      if (on.ascii && deco() && (!keep || (v.tag != 'r' && isIdent(v.s))))
      {
        std::string w = keep ? v.s : word();
        out.text += w;
        out.used.ascii = true;
        push('w', w);
        return;
      }
      std::string raw = keep && v.tag == 'r' ? ref::escape(v.s) : ref::spell(src, v.s);
      out.text += '"' + raw + '"';
      push('s', raw);
      return;
    }
    case ref::Arr:
      push('[', "[");
      out.text += '[';
      W();
      for (size_t i = 0; i < v.a.size(); i++)
      {
        value(v.a[i], false, "");
        sep(i + 1 == v.a.size(), v.a[i].k != ref::Arr && v.a[i].k != ref::Obj);
      }
      out.text += ']';
      out.toks.push_back(Tok{']', false, "", "]", 0});
      return;
    case ref::Obj:
      push('{', "{");
      out.text += '{';
      W();
      for (size_t i = 0; i < v.o.size(); i++)
      {
        std::string raw;
        bool asc;
        name(v.o[i].first, raw, asc);
        W(true);
        out.text += ':';
        W();
        value(v.o[i].second, true, raw);
        sep(i + 1 == v.o.size(), false);
      }
      out.text += '}';
      out.toks.push_back(Tok{'}', false, "", "}", 0});
      return;
    }
  }
  Printed document(const JV &v)
  {
    W();
    value(v, false, "");
    Sw u = out.used;
    W();
    out.used = u; // what follows the root does not matter
    return out;
  }
};
} // namespace rel
