#include "feed.h"
using namespace pbt;
using namespace glue;
typedef ref::JV JV;
const char *const PROP_ID = "P27";
const char *const PROP_RULE =
  "Cases are histories of reading a token, entering a scope at the token just read, skipping to the end of the scope, reading beyond its "
  "end and leaving it (early or at its end), with any number of nested scopes, over documents nested up to 9 levels, read from one buffer, "
  "from cut buffers or from recorded tokens. Oracle: the independent parser's token list and the index of the last token of each open "
  "scope. Non-trivial: at least one scope was entered and at least one token was read after leaving it.";
void prop_init() {}

void run_case(Src &s, Ctx &c)
{
  ref::GenOpt g;
  g.depth = int(1 + s.draw(9));
  JV v = ref::genDoc(s, g);
  std::string t = ref::text(s, v, true);
  std::vector<ref::Tok> toks;
  JV tmp;
  std::string err;
  PBT_CHECK(ref::parse(t, tmp, &err, &toks), "generator: " + err);
  std::vector<size_t> end(toks.size());
  std::vector<size_t> open;
  for (size_t i = 0; i < toks.size(); i++)
  {
    end[i] = i;
    if (strchr("{[", toks[i].kind))
      open.push_back(i);
    else if (strchr("}]", toks[i].kind))
    {
      end[open.back()] = i;
      open.pop_back();
    }
  }
  c.identity(t);
  unsigned in = unsigned(s.draw(4));
  std::vector<size_t> cuts;
  if (in == 1)
    cuts = genCuts(s, t);
  Feeder f(t, cuts);
  f.plan(s);
  if (c.verbose)
    c.describe("document", (in == 2 ? std::string("recorded: ") : "") + printable(t) + (in == 1 ? " " + f.show() : ""));
  JS::Tokenizer tk;
  JS::JsonTokens rec;
  Exact e(t);
  if (in == 2)
  {
    JS::ParseContext pc(e.data(), e.size());
    PBT_CHECK(pc.parseTo(rec) == JS::Error::NoError && rec.data.size() == toks.size(), "cannot record the tokens");
    tk.addData(&rec.data);
  }
  else
    f.attach(tk);
  JS::Token tok;
  std::vector<size_t> scopes; // index of the last token
  size_t next = 0;            // index of the next token
  bool fresh = false;         // the token just read can be entered
  bool entered = false, left = false;
  std::string log;
  unsigned avoid = unsigned(s.draw(4)); // bias
  for (size_t step = 0; step < 400; step++)
  {
    size_t op = s.weighted({unsigned(avoid == 1 ? 8 : 3), unsigned(fresh ? 3 : 0), unsigned(scopes.empty() ? 0 : avoid == 2 ? 1 : 2),
                            unsigned(scopes.empty() ? 0 : avoid == 3 ? 1 : 2)});
    std::string at = fmt("step %zu, token %zu: ", step, next);
    if (op == 0)
    {
      log += " read";
      bool ended = !scopes.empty() && next > scopes.back();
      if (!ended && next == toks.size())
        break;
      JS::Error er = tk.nextToken(tok);
      while (er == JS::Error::NeedMoreData && f.add(tk))
        er = tk.nextToken(tok);
      if (ended)
      {
        c.label("read beyond the end");
        PBT_CHECK(er == JS::Error::ScopeHasEnded, at + "reading in a scope that has ended gives " + errName(er) + " after" + log);
        continue;
      }
      PBT_CHECK(er == JS::Error::NoError, at + "reading gives " + errName(er) + " after" + log);
      PBT_CHECK(conv(tok) == toks[next], at + "read " + conv(tok).show() + ", expected " + toks[next].show() + " after" + log);
      fresh = !strchr("}]", toks[next].kind);
      next++;
      if (entered && left)
        c.nontrivial = true;
    }
    else if (op == 1)
    {
      log += " enter";
      tk.pushScope(tok.value_type);
      scopes.push_back(end[next - 1]);
      entered = true;
      fresh = false;
      c.label(scopes.size() > 1 ? "nested scope" : "scope");
    }
    else if (op == 2)
    {
      log += " skip";
      bool moved = next <= scopes.back();
      JS::Error er = tk.goToEndOfScope(tok);
      while (er == JS::Error::NeedMoreData && f.add(tk))
        er = tk.goToEndOfScope(tok);
      PBT_CHECK(er == JS::Error::NoError, at + "skipping to the end of the scope gives " + errName(er) + " after" + log);
      if (moved)
      {
        PBT_CHECK(conv(tok) == toks[scopes.back()], at + "skipping ends at " + conv(tok).show() + ", expected " + toks[scopes.back()].show() + " after" + log);
        next = scopes.back() + 1;
        fresh = false;
      }
    }
    else
    {
      log += " leave";
      tk.popScope();
      scopes.pop_back();
      left = true;
      fresh = false;
    }
  }
  c.identity(log);
  if (c.verbose)
    c.describe("history", log);
}
size_t fixed_count() { return 2; }
void run_fixed(size_t i, Ctx &)
{
  // a scope with more levels than 16 bits can count
  size_t n = 70000;
  std::string open = i ? "{\"a\":" : "[", close = i ? "}" : "]", t = "[";
  for (size_t k = 0; k < n; k++)
    t += open;
  t += "1";
  for (size_t k = 0; k < n; k++)
    t += close;
  t += ",2]";
  JS::Tokenizer tk;
  tk.addData(t.data(), t.size());
  JS::Token tok;
  PBT_CHECK(tk.nextToken(tok) == JS::Error::NoError && tk.nextToken(tok) == JS::Error::NoError, "deep document refused");
  tk.pushScope(tok.value_type);
  PBT_CHECK(tk.goToEndOfScope(tok) == JS::Error::NoError, "cannot skip a deep value");
  tk.popScope();
  PBT_CHECK(tk.nextToken(tok) == JS::Error::NoError && std::string(tok.value.data, tok.value.size) == "2", "skipping a deep value stops at another token");
}
