// Delivery of a text to a tokenizer in consecutive, exactly sized heap buffers that are freed on release.
#pragma once
#include "jsutil.h"

namespace glue
{
// where to cut: offsets, non-decreasing, may repeat (empty buffers)
inline std::vector<size_t> genCuts(pbt::Src &s, const std::string &t)
{
  std::vector<size_t> cuts;
  size_t n = t.size();
  switch (s.draw(6))
  {
  case 0: // one cut
    cuts.push_back(s.draw(n + 1));
    break;
  case 1: // a few cuts
  {
    size_t k = 1 + s.draw(6);
    for (size_t i = 0; i < k; i++)
      cuts.push_back(s.draw(n + 1));
    break;
  }
  case 2: // every byte (bounded)
    if (n <= 600)
      for (size_t i = 1; i < n; i++)
        cuts.push_back(i);
    break;
  case 3: // fixed size
  {
    size_t k = 1 + s.draw(40);
    for (size_t i = k; i < n; i += k)
      cuts.push_back(i);
    break;
  }
  case 4: // around interesting characters
  {
    std::vector<size_t> at;
    for (size_t i = 0; i < n; i++)
      if (strchr("{}[],:\"\\/\n-.eEtfn", t[i]))
        at.push_back(i + (i + 1 <= n && s.boolean() ? 1 : 0));
    if (!at.empty())
    {
      size_t k = 1 + s.draw(8);
      for (size_t i = 0; i < k; i++)
        cuts.push_back(s.pick(at));
    }
    break;
  }
  default: // random small pieces
    for (size_t i = 0; i < n && cuts.size() < 400;)
    {
      i += s.draw(9);
      if (i < n)
        cuts.push_back(i);
      if (s.chance(1, 20))
        i += s.draw(60);
    }
    break;
  }
  std::sort(cuts.begin(), cuts.end());
  if (!s.chance(1, 4))
    cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
  return cuts;
}

struct Feeder
{
  std::vector<std::string> parts;
  std::vector<std::unique_ptr<char[]>> held;
  size_t added = 0, released = 0;
  size_t upfront = 0;      // buffers added before the first read
  unsigned mode = 0;       // 0 all up front, 1 callback only, 2 callback sometimes adds nothing or several, 3 no callback
  uint64_t rng = 1;
  bool keep = false;       // released buffers stay allocated
  std::string problem;
  std::function<void(const char *)> rel;
  Feeder(const std::string &t, const std::vector<size_t> &cuts)
  {
    size_t p = 0;
    for (size_t c : cuts)
    {
      parts.push_back(t.substr(p, c - p));
      p = c;
    }
    parts.push_back(t.substr(p));
  }
  void plan(pbt::Src &s)
  {
    mode = unsigned(s.draw(4));
    rng = s.draw(1u << 30) * 2 + 1;
    upfront = mode == 0 ? parts.size() : s.draw(std::min<size_t>(parts.size(), 4) + 1);
  }
  bool add(JS::Tokenizer &t)
  {
    if (added == parts.size())
      return false;
    const std::string &p = parts[added++];
    held.emplace_back(new char[p.size() ? p.size() : 1]);
    memcpy(held.back().get(), p.data(), p.size());
    t.addData(held.back().get(), p.size());
    return true;
  }
  void attach(JS::Tokenizer &t)
  {
    rel = [this](const char *p) {
      if (released >= added || held[released].get() != p)
      {
        if (problem.empty())
          problem = "release callback out of order or repeated, at buffer " + std::to_string(released);
        return;
      }
      if (!keep)
        held[released].reset();
      released++;
    };
    t.setReleaseCallback(rel);
    if (mode == 1 || mode == 2)
      t.setNeedMoreDataCallback([this](JS::Tokenizer &x) {
        size_t n = 1;
        if (mode == 2)
          n = pbt::splitmix(rng) % 4;
        while (n-- && add(x))
          ;
      });
    for (size_t i = 0; i < upfront; i++)
      add(t);
  }
  std::string show() const
  {
    std::string o = "mode " + std::to_string(mode) + " upfront " + std::to_string(upfront) + ":";
    for (auto &p : parts)
      o += " <" + pbt::printable(p) + ">";
    return o.substr(0, 6000);
  }
};

// tokens of a text delivered by the feeder; data is also added after NeedMoreData
inline Read readFed(Feeder &f, const Opts &o, size_t max)
{
  JS::Tokenizer tk;
  o.apply(tk);
  f.attach(tk);
  Read r;
  while (true)
  {
    drain(tk, r, max);
    if (!f.problem.empty())
      pbt::fail(f.problem);
    if (tk.registeredBuffers() != f.added - f.released)
      pbt::fail("registeredBuffers() does not match the buffers added and released");
    if (r.error != JS::Error::NeedMoreData)
      return r;
    if (f.released != f.added)
      pbt::fail("needs more data but still holds buffers");
    if (!f.add(tk))
      return r;
  }
}
} // namespace glue
