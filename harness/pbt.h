// A small property-based testing engine built on choice tapes.
//
// A property is a function of a tape of bounded choices.  Generation draws the
// choices from a PRNG seeded by (seed, property, case index); replay reads them
// from a file; shrinking deletes and lowers choices and re-runs the property.
// Every batch of cases runs in a forked child, so that a sanitizer report, an
// assert, a signal or a hang is an ordinary, shrinkable failure of one case.
#pragma once
#include <cassert>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <algorithm>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{

struct Fail
{
  std::string msg;
};

[[noreturn]] inline void fail(const std::string &msg)
{
  throw Fail{msg};
}

inline uint64_t splitmix(uint64_t &x)
{
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

inline uint64_t fnv(const void *d, size_t n, uint64_t h = 0xcbf29ce484222325ull)
{
  const unsigned char *p = static_cast<const unsigned char *>(d);
  for (size_t i = 0; i < n; i++)
  {
    h ^= p[i];
    h *= 0x100000001b3ull;
  }
  return h;
}

// Choices and description of the running case, in memory shared with the driver, so that they survive a crash.
struct Ring
{
  volatile uint64_t n;
  volatile uint64_t desc_n;
  uint64_t v[200001];
  char desc[1 << 17];
};

// Source of choices.
struct Src
{
  Ring *ring = nullptr;
  enum Mode { Random, Replay, Bytes };
  Mode mode = Random;
  uint64_t rng = 0;
  std::vector<uint64_t> tape;      // recorded (Random/Bytes) or given (Replay) choices
  std::vector<uint64_t> used;      // normalised choices actually used
  size_t pos = 0;
  const uint8_t *bytes = nullptr;
  size_t nbytes = 0;
  size_t limit = 200000;           // hard cap on the number of choices of one case

  uint64_t next64()
  {
    return splitmix(rng);
  }
  // uniform choice in [0, n); 0 is the simplest one
  uint64_t draw(uint64_t n)
  {
    uint64_t v = 0;
    if (n > 1 && used.size() < limit)
    {
      switch (mode)
      {
      case Random:
        v = next64() % n;
        break;
      case Replay:
        v = pos < tape.size() ? tape[pos++] % n : 0;
        break;
      case Bytes:
      {
        int k = n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
        uint64_t x = 0;
        for (int i = 0; i < k && pos < nbytes; i++)
          x |= uint64_t(bytes[pos++]) << (8 * i);
        v = x % n;
        break;
      }
      }
    }
    else if (n > 1 && mode == Replay && pos < tape.size())
      pos++;
    if (n > 1)
    {
      used.push_back(v);
      if (ring && used.size() <= 200000)
      {
        ring->v[used.size() - 1] = v;
        ring->n = used.size();
      }
    }
    return v;
  }
  uint64_t bits64()
  {
    uint64_t hi = draw(1ull << 32), lo = draw(1ull << 32);
    return (hi << 32) | lo;
  }
  int64_t range(int64_t lo, int64_t hi) // inclusive, simplest = lo
  {
    return lo + int64_t(draw(uint64_t(hi - lo) + 1));
  }
  bool chance(unsigned num, unsigned den) // false is the simplest
  {
    return draw(den) >= den - num;
  }
  bool boolean()
  {
    return draw(2) != 0;
  }
  // geometric-like size, mostly small, at most max
  size_t size(size_t max)
  {
    size_t cls = draw(8);
    size_t cap = cls < 3 ? 2 : cls < 6 ? 5 : cls < 7 ? 12 : max;
    if (cap > max)
      cap = max;
    return size_t(draw(cap + 1));
  }
  template <typename T>
  const T &pick(const std::vector<T> &v)
  {
    return v[size_t(draw(v.size()))];
  }
  template <typename T, size_t N>
  const T &pick(const T (&v)[N])
  {
    return v[size_t(draw(N))];
  }
  // weighted choice
  size_t weighted(std::initializer_list<unsigned> w)
  {
    uint64_t sum = 0;
    for (auto x : w)
      sum += x;
    uint64_t d = draw(sum);
    size_t i = 0;
    for (auto x : w)
    {
      if (d < x)
        return i;
      d -= x;
      i++;
    }
    return 0;
  }
};

// Findings listed in known_findings.txt ("known: property=<id> key=<key> ..."); read once, never written.
inline const std::map<std::string, std::string> &knownFindings(const char *prop)
{
  static std::map<std::string, std::string> m;
  static bool done = false;
  if (!done)
  {
    done = true;
    const char *f = getenv("VERIF_KNOWN");
    std::ifstream i(f ? f : "");
    std::string l, want = std::string("known: property=") + prop + " key=";
    while (std::getline(i, l))
      if (l.compare(0, want.size(), want) == 0)
      {
        std::string r = l.substr(want.size());
        size_t sp = r.find(' ');
        m[r.substr(0, sp)] = sp == std::string::npos ? "" : r.substr(sp + 1);
      }
  }
  return m;
}

// Per-case context.
struct Ctx
{
  std::string desc;            // human readable form of the case
  uint64_t key = 0xcbf29ce484222325ull; // identity of the case (what was actually exercised)
  bool nontrivial = false;
  bool verbose = false;        // describe() is worth calling
  Ring *ring = nullptr;
  std::map<std::string, uint64_t> classes;
  void label(const std::string &c)
  {
    classes[c]++;
  }
  // a deviation that is reported as a known finding if (and only if) the committed file lists its key
  void known(const char *prop, const std::string &key, const std::string &msg)
  {
    if (!knownFindings(prop).count(key))
      fail(msg);
    label("known-finding:" + key);
  }
  void identity(const std::string &s)
  {
    key = fnv(s.data(), s.size(), key);
    key = fnv("\x01", 1, key);
  }
  void describe(const char *name, const std::string &s)
  {
    desc += name;
    desc += ": ";
    desc += s;
    desc += "\n";
    if (ring)
    {
      size_t k = desc.size() < sizeof(ring->desc) ? desc.size() : sizeof(ring->desc);
      memcpy(ring->desc, desc.data(), k);
      ring->desc_n = k;
    }
  }
};

inline std::string printable(const std::string &s, size_t max = 4000)
{
  std::string o;
  for (unsigned char c : s)
  {
    char b[8];
    if (c == '\\')
      o += "\\\\";
    else if (c >= 32 && c < 127)
      o += char(c);
    else if (c == '\n')
      o += "\\n";
    else
    {
      snprintf(b, sizeof b, "\\x%02x", c);
      o += b;
    }
    if (o.size() > max)
    {
      o += "...";
      break;
    }
  }
  return o;
}

inline std::string jsonstr(const std::string &s)
{
  std::string o = "\"";
  for (unsigned char c : s)
  {
    char b[8];
    if (c == '"' || c == '\\')
    {
      o += '\\';
      o += char(c);
    }
    else if (c < 32 || c > 126)
    {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
    else
      o += char(c);
  }
  return o + "\"";
}

inline std::string fmt(const char *f, ...)
{
  char b[2048];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}

#define PBT_CHECK(cond, msg)                                                                                           \
  do                                                                                                                   \
  {                                                                                                                    \
    if (!(cond))                                                                                                       \
      ::pbt::fail(std::string("check failed: " #cond " -- ") + (msg));                                                 \
  } while (0)

} // namespace pbt

// ---- supplied by each property ---------------------------------------------------------------------
extern const char *const PROP_ID;
extern const char *const PROP_RULE;
void run_case(pbt::Src &src, pbt::Ctx &ctx);
// explicit cases (regressions, corner inputs); may be 0
size_t fixed_count();
void run_fixed(size_t i, pbt::Ctx &ctx);
// set-up executed once in every process before the first case
void prop_init();
