// Glue between the library's tokens and the reference model.  Included after json_struct.h.
#pragma once
#include "refjson.h"
#include <json_struct/json_struct.h>

namespace glue
{
inline char kindOf(JS::Type t)
{
  switch (t)
  {
  case JS::Type::ObjectStart: return '{';
  case JS::Type::ObjectEnd: return '}';
  case JS::Type::ArrayStart: return '[';
  case JS::Type::ArrayEnd: return ']';
  case JS::Type::String: return 's';
  case JS::Type::Number: return 'n';
  case JS::Type::Bool: return 't';
  case JS::Type::Null: return '0';
  case JS::Type::Ascii: return 'w';
  default: return '?';
  }
}

struct Read
{
  std::vector<ref::Tok> toks;
  std::vector<char> name_kinds;
  JS::Error error = JS::Error::NoError;
  size_t roots = 0;
  int depth = 0;
  bool complete() const
  {
    return roots > 0 && depth == 0;
  }
};

inline ref::Tok conv(const JS::Token &t)
{
  ref::Tok r;
  r.kind = kindOf(t.value_type);
  // an anonymous token has name type Ascii and a null name; a named one may have an empty name
  r.named = t.name_type == JS::Type::String || t.name.size > 0;
  r.name.assign(t.name.data ? t.name.data : "", t.name.size);
  r.value.assign(t.value.data ? t.value.data : "", t.value.size);
  return r;
}

// reads tokens until an error; at most max tokens (a valid run never exceeds the input length + 1)
inline void drain(JS::Tokenizer &tk, Read &r, size_t max, bool first_root_only = false)
{
  JS::Token t;
  for (size_t i = 0;; i++)
  {
    if (i > max)
      pbt::fail("more tokens than input characters");
    r.error = tk.nextToken(t);
    if (r.error != JS::Error::NoError)
      return;
    r.toks.push_back(conv(t));
    r.name_kinds.push_back(kindOf(t.name_type));
    char k = r.toks.back().kind;
    if (k == '{' || k == '[')
      r.depth++;
    if (k == '}' || k == ']')
    {
      if (--r.depth == 0)
      {
        r.roots++;
        if (first_root_only)
          return;
      }
    }
  }
}

struct Opts
{
  bool ascii = false, newline = false, comma = false, comments = false;
  static Opts from(unsigned bits)
  {
    Opts o;
    o.ascii = bits & 1;
    o.newline = bits & 2;
    o.comma = bits & 4;
    o.comments = bits & 8;
    return o;
  }
  void apply(JS::Tokenizer &t) const
  {
    t.allowAsciiType(ascii);
    t.allowNewLineAsTokenDelimiter(newline);
    t.allowSuperfluousComma(comma);
    t.allowComments(comments);
  }
  std::string show() const
  {
    return std::string(ascii ? "ascii " : "") + (newline ? "newline " : "") + (comma ? "comma " : "") +
           (comments ? "comments" : "");
  }
};

// an exactly sized heap copy, so that reading one byte past the end is caught
struct Exact
{
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Exact(const std::string &s) : p(new char[s.size() ? s.size() : 1]), n(s.size())
  {
    memcpy(p.get(), s.data(), n);
  }
  const char *data() const { return p.get(); }
  size_t size() const { return n; }
};

inline Read readAll(const std::string &text, const Opts &o = Opts(), bool first_root_only = false)
{
  Exact e(text);
  JS::Tokenizer tk;
  o.apply(tk);
  tk.addData(e.data(), e.size());
  Read r;
  drain(tk, r, text.size() + 1, first_root_only);
  return r;
}

// pretty style: one token to a line, each indented by its depth times the indentation; says what is wrong, or nothing
inline std::string indentProblem(const std::string &t, int shift)
{
  int depth = 0;
  size_t line = 0;
  for (size_t i = 0; i < t.size(); line++)
  {
    size_t e = t.find('\n', i);
    if (e == std::string::npos)
      e = t.size();
    size_t k = i;
    while (k < e && t[k] == ' ')
      k++;
    if (k < e)
    {
      const bool close = t[k] == '}' || t[k] == ']';
      if (line && int(k - i) != (depth - close) * shift)
        return pbt::fmt("line %zu is indented by %zu at depth %d, indentation %d", line, k - i, depth - close, shift);
      bool in = false;
      int tokens = 0;
      for (; k < e; k++)
      {
        if (in)
        {
          if (t[k] == '\\')
            k++;
          else if (t[k] == '"')
            in = false;
          continue;
        }
        if (t[k] == '"')
          in = true;
        else if (t[k] == '{' || t[k] == '[')
          depth++, tokens++;
        else if (t[k] == '}' || t[k] == ']')
          depth--, tokens++;
        else if (t[k] == ',' && k + 1 != e)
          return pbt::fmt("line %zu has more than one value", line);
      }
      if (tokens > 1)
        return pbt::fmt("line %zu has more than one bracket", line);
    }
    i = e + 1;
  }
  return "";
}

inline const char *errName(JS::Error e)
{
  static thread_local char b[32];
  snprintf(b, sizeof b, "JS::Error(%d)", int(e));
  return b;
}

inline std::string showToks(const std::vector<ref::Tok> &t)
{
  std::string o;
  for (auto &x : t)
    o += x.show() + " ";
  return o;
}

inline void compareToks(const std::vector<ref::Tok> &got, const std::vector<ref::Tok> &want, const std::string &what)
{
  size_t n = std::min(got.size(), want.size());
  for (size_t i = 0; i < n; i++)
    if (!(got[i] == want[i]))
      pbt::fail(what + ": token " + std::to_string(i) + " is " + got[i].show() + ", expected " + want[i].show());
  if (got.size() != want.size())
    pbt::fail(what + ": " + std::to_string(got.size()) + " tokens, expected " + std::to_string(want.size()) +
              (got.size() > n ? ", extra " + got[n].show() : ", missing " + want[n].show()));
}

inline std::string utext(const ref::JV &v) { return ref::text(v); }
} // namespace glue
