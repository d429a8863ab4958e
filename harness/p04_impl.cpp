// Compiled once per instruction set, with JS, ty and glue renamed and P04_NAME set.
#include "typed.h"
#include "feed.h"
#include "p04_job.h"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)

static std::string dump(const glue::Read &r)
{
  std::string o = glue::showToks(r.toks);
  o.append(r.name_kinds.begin(), r.name_kinds.end());
  return o + " error " + std::to_string(int(r.error));
}
std::string CAT(p04_run_, P04_NAME)(const P04Job &j)
{
  std::string o;
  glue::Opts op = glue::Opts::from(j.sw);
  {
    glue::Exact e(j.text);
    JS::Tokenizer tk;
    op.apply(tk);
    tk.addData(e.data(), e.size());
    glue::Read r;
    glue::drain(tk, r, j.text.size() + 1);
    o += "whole: " + dump(r) + "\n";
    if (r.error != JS::Error::NeedMoreData)
      o += tk.makeErrorString();
  }
  if (!j.cuts.empty())
  {
    glue::Feeder f(j.text, j.cuts);
    f.mode = 1;
    o += "cut: " + dump(glue::readFed(f, op, j.text.size() + 1)) + "\n";
  }
  if (j.typed)
  {
    glue::Exact e(j.text);
    ty::U u;
    JS::ParseContext pc(e.data(), e.size());
    op.apply(pc.tokenizer);
    JS::Error er = pc.parseTo(u);
    o += "typed: " + std::to_string(int(er)) + "\n";
    if (er == JS::Error::NoError)
    {
      o += JS::serializeStruct(u);
      o += JS::serializeStruct(u, JS::SerializerOptions(JS::SerializerOptions::Compact));
    }
    else
      o += pc.makeErrorString();
    for (auto &m : pc.missing_members)
      o += " " + m;
  }
  if (!j.strings.empty())
  {
    o += "strings: " + JS::serializeStruct(j.strings) + "\n";
    std::map<std::string, std::string> m;
    for (auto &s : j.strings)
      m[s] = s;
    o += JS::serializeStruct(m) + "\n";
  }
  {
    std::string out;
    JS::Error er = JS::reformat(j.text.data(), j.text.size(), out);
    o += "reformat: " + std::to_string(int(er)) + " " + out;
  }
  return o;
}
