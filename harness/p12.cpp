#define JS_INT_128
#include "jsutil.h"
#include "numutil.h"
using namespace pbt;
using namespace glue;
const char *const PROP_ID = "P12";
const char *const PROP_RULE =
  "Cases are (a) values of every integer type (8 to 64 bits, char, 128 bits): random, small, and within 3 of the limits, "
  "serialized and read back; (b) number texts (values around every type's limits and random digit strings, spelled "
  "plainly, quoted, with fraction, exponent, trailing zeros, up to 60 digits) and malformed texts read into every type. "
  "Oracle: decimal arithmetic on digit strings. Non-trivial: the text has more than 2 digits or is malformed.";
void prop_init() {}

typedef unsigned __int128 u128;
typedef __int128 i128;

static std::string str(u128 v)
{
  std::string o;
  do
    o.insert(o.begin(), char('0' + int(v % 10)));
  while (v /= 10);
  return o;
}
static std::string str(i128 v) { return v < 0 ? "-" + str(u128(0) - u128(v)) : str(u128(v)); }
template <typename T>
static std::string show(T v) { return T(-1) < T(0) ? str(i128(v)) : str(u128(v)); }

// the integer part of the number, as sign and digits; very large magnitudes are cut to 60 digits
static std::string truncated(const std::string &t, bool &neg)
{
  std::string c = ref::canonNum(t);
  neg = c[0] == '-';
  if (neg)
    c.erase(0, 1);
  size_t e = c.find('e');
  if (e == std::string::npos)
    return "0";
  long exp = atol(c.c_str() + e + 1);
  std::string d = c.substr(0, e);
  if (exp >= 0)
    d.append(size_t(std::min<long>(exp, 60)), '0');
  else if (size_t(-exp) >= d.size())
    d = "0";
  else
    d.resize(d.size() - size_t(-exp));
  return d;
}
static int cmpMag(const std::string &a, const std::string &b)
{
  if (a.size() != b.size())
    return a.size() < b.size() ? -1 : 1;
  int c = a.compare(b);
  return c < 0 ? -1 : c > 0;
}
template <typename T>
static std::string expected(const std::string &t)
{
  const bool sgn = T(-1) < T(0);
  const int bits = int(sizeof(T)) * 8;
  bool neg;
  std::string m = truncated(t, neg);
  u128 one = 1;
  u128 maxv = sgn ? ((one << (bits - 1)) - 1) : bits == 128 ? ~u128(0) : ((one << bits) - 1);
  std::string maxs = str(maxv), mins = sgn ? str(maxv + 1) : "0";
  if (neg)
  {
    if (cmpMag(m, mins) > 0)
      m = mins;
    return m == "0" ? m : "-" + m;
  }
  return cmpMag(m, maxs) > 0 ? maxs : m;
}

template <typename T>
struct One
{
  T v;
  JS_OBJ(v);
};

template <typename T>
static void parseText(const std::string &t, bool quoted, const char *tn)
{
  std::string doc = quoted ? "{\"v\":\"" + t + "\"}" : "{\"v\":" + t + "}";
  Exact e(doc);
  One<T> x;
  x.v = 42;
  JS::ParseContext p(e.data(), e.size());
  JS::Error er = p.parseTo(x);
  if (num::strictNumber(t))
  {
    PBT_CHECK(er == JS::Error::NoError, std::string(tn) + ": valid number refused: " + errName(er));
    std::string w = expected<T>(t);
    PBT_CHECK(show(x.v) == w, std::string(tn) + ": got " + show(x.v) + ", expected " + w);
  }
  else if (!num::lenientNumber(t))
    PBT_CHECK(er != JS::Error::NoError, std::string(tn) + ": malformed number accepted as " + show(x.v));
}

#define ALL_TYPES(F)                                                                                                   \
  F(int8_t) F(uint8_t) F(int16_t) F(uint16_t) F(int32_t) F(uint32_t) F(int64_t) F(uint64_t) F(char) F(short) F(long)   \
    F(unsigned long) F(long long) F(unsigned long long) F(i128) F(u128)

static void checkText(const std::string &t, bool quoted, Ctx &c)
{
  c.identity(t + (quoted ? "q" : ""));
  if (c.verbose)
    c.describe("text", (quoted ? "quoted " : "") + printable(t, 3000));
#define F(T) parseText<T>(t, quoted, #T);
  ALL_TYPES(F)
#undef F
  c.nontrivial = t.size() > 2;
  c.label(num::strictNumber(t) ? "number text" : num::lenientNumber(t) ? "lenient spelling (no claim)" : "malformed");
}

template <typename T>
static void roundTrip(u128 bits, const char *tn)
{
  One<T> x, y;
  x.v = T(bits);
  y.v = 42;
  std::string t = JS::serializeStruct(x, JS::SerializerOptions(JS::SerializerOptions::Compact));
  std::string want = "{\"v\":" + show(x.v) + "}";
  PBT_CHECK(t == want, std::string(tn) + ": printed " + t + ", expected " + want);
  Exact e(t);
  JS::ParseContext p(e.data(), e.size());
  PBT_CHECK(p.parseTo(y) == JS::Error::NoError, std::string(tn) + ": cannot read back " + t);
  PBT_CHECK(y.v == x.v, std::string(tn) + ": " + t + " read back as " + show(y.v));
}

static void checkValue(u128 b, Ctx &c)
{
  c.identity("value" + str(b));
  if (c.verbose)
    c.describe("value bits", str(b));
#define F(T) roundTrip<T>(b, #T);
  ALL_TYPES(F)
#undef F
  c.nontrivial = b > 99;
  c.label("value");
}

static std::string limitText(Src &s)
{
  // close to a limit of some type
  int bits = s.pick(std::vector<int>{7, 8, 15, 16, 31, 32, 63, 64, 127, 128});
  u128 v = bits == 128 ? ~u128(0) : (u128(1) << bits);
  std::string d = str(v);
  int k = int(s.range(-3, 3));
  for (int i = 0; i < std::abs(k); i++)
    d = num::bump(d, k);
  return d;
}

void run_case(Src &s, Ctx &c)
{
  switch (s.draw(4))
  {
  case 0:
  {
    u128 b = 0;
    switch (s.draw(4))
    {
    case 0: b = s.draw(300); break;
    case 1: b = u128(0) - s.draw(300); break;
    case 2: b = (u128(s.bits64()) << 64 | s.bits64()) >> s.draw(127); break;
    case 3: b = (u128(1) << s.draw(128)) + u128(s.draw(7)) - 3; break;
    }
    if (s.boolean())
      b = u128(0) - b;
    checkValue(b, c);
    break;
  }
  case 1:
  {
    std::string d = limitText(s);
    long exp = 0;
    switch (s.draw(4))
    {
    case 0: break;
    case 1: // fraction digits
    {
      std::string f = ref::genDigits(s, 1 + s.draw(20));
      d += f;
      exp = -long(f.size());
      break;
    }
    case 2: // shift digits into the exponent
    {
      size_t k = s.draw(d.size());
      d.resize(d.size() - k);
      exp = long(k);
      break;
    }
    case 3: exp = s.range(-45, 45); break;
    }
    checkText(num::spellNum(s, s.boolean(), d, exp), s.chance(1, 4), c);
    break;
  }
  case 2:
  {
    std::string t = s.boolean() ? ref::genNumber(s) : num::spellNum(s, s.boolean(), ref::genDigits(s, 1 + s.draw(60)), s.range(-50, 50));
    checkText(t, s.chance(1, 4), c);
    break;
  }
  case 3:
  {
    std::string t = num::genBadNumber(s);
    // outside quotes blanks belong to the document
    checkText(t, t.find(' ') != std::string::npos || s.chance(1, 3), c);
    break;
  }
  }
}

static const char *const FIXED[] = {
  "0", "-0", "-1", "1", "0e30", "0e-30", "-0e99999", "18446744073709551615", "18446744073709551616", "18446744073709551617", "3e19", "2e19", "1e19",
  "1.8446744073709551615e19", "1.8446744073709551616e19", "184467440737095516150e-1", "184467440737095516170e-1", "9223372036854775807",
  "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "-129", "-128", "127", "128", "255", "256", "0.9", "-0.9", "1.9999999999999999999999", "127.99999999999999999999999999",
  "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "170141183460469231731687303715884105728",
  "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729", "1e999999999999", "1e-999999999999", "-1e400",
  "00000000000000000000000000000000000001", "0.000000000000000000000000000000000000001e39", "-", ".", "e1", "1e", "1.1.1", "-.e1", "12a", "--1", "1-"};
size_t fixed_count() { return 2 * sizeof FIXED / sizeof *FIXED + 65536; }
void run_fixed(size_t i, Ctx &c)
{
  size_t n = 2 * sizeof FIXED / sizeof *FIXED;
  if (i < n)
    checkText(FIXED[i / 2], i & 1, c);
  else
    checkValue(u128(i - n) * 0x10001u, c); // every 16-bit pattern
}
