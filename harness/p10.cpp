#include "jsutil.h"
#include "numutil.h"
using namespace pbt;
using namespace glue;
const char *const PROP_ID = "P10";
const char *const PROP_RULE =
  "Cases are number texts: random digits (up to 60) and exponents, spellings of random doubles/floats and of the exact "
  "midpoints between neighbouring floats/doubles (exact, one digit off, truncated, extended), powers of ten and two, the "
  "limits of the formats, in every spelling (plain, fraction, exponent, trailing zeros), written plainly or quoted, and "
  "damaged number texts. Oracle: strtod/strtof of the C library, and a build without 128-bit integers (same result). Non-trivial: the text has more than 3 significant "
  "digits or an exponent, or is malformed.";
void prop_init() {}
namespace portable
{
int read(const std::string &t, double &d, float &f);
}

struct DF
{
  double d = 77;
  float f = 77;
  JS_OBJ(d, f);
};

static size_t sigDigits(const std::string &t)
{
  std::string c = ref::canonNum(t);
  size_t e = c.find('e');
  if (e == std::string::npos)
    return 0;
  return e - (c[0] == '-');
}

static void check(const std::string &t, bool quoted, Ctx &c)
{
  c.identity(t + (quoted ? "q" : ""));
  if (c.verbose)
    c.describe("number", (quoted ? "quoted " : "") + printable(t, 12000));
  std::string q = quoted ? "\"" : "";
  std::string dt = "{\"d\":" + q + t + q + "}", ft = "{\"f\":" + q + t + q + "}";
  Exact de(dt), fe(ft);
  DF x, y;
  JS::ParseContext pd(de.data(), de.size()), pf(fe.data(), fe.size());
  JS::Error ed = pd.parseTo(x), ef = pf.parseTo(y);
  double pd_d;
  float pf_f, unused_f;
  double unused_d;
  int pe = portable::read(dt, pd_d, unused_f), pg = portable::read(ft, unused_d, pf_f);
  PBT_CHECK(pe == int(ed) && pg == int(ef), fmt("a build without 128-bit integers reports %d/%d instead of %d/%d", pe, pg, int(ed), int(ef)));
  PBT_CHECK(ed != JS::Error::NoError || num::d2bits(pd_d) == num::d2bits(x.d), fmt("a build without 128-bit integers reads %.17g instead of %.17g", pd_d, x.d));
  PBT_CHECK(ef != JS::Error::NoError || num::f2bits(pf_f) == num::f2bits(y.f), fmt("a build without 128-bit integers reads %.9g instead of %.9g", double(pf_f), double(y.f)));
  if (num::strictNumber(t))
  {
    PBT_CHECK(ed == JS::Error::NoError && ef == JS::Error::NoError,
              std::string("valid number refused: ") + errName(ed) + "/" + errName(ef));
    double wd = strtod(t.c_str(), nullptr);
    float wf = strtof(t.c_str(), nullptr);
    PBT_CHECK(num::f2bits(wf) == num::f2bits(y.f), fmt("float: got %.9g (%08x), expected %.9g (%08x)", double(y.f), num::f2bits(y.f), double(wf), num::f2bits(wf)));
    size_t n = sigDigits(t);
    uint64_t a = num::d2bits(wd), b = num::d2bits(x.d);
    uint64_t diff = a > b ? a - b : b - a;
    PBT_CHECK((a >> 63) == (b >> 63), fmt("sign: got %.17g, expected %.17g", x.d, wd));
    PBT_CHECK(diff <= (n <= 19 ? 0u : 1u),
              fmt("double: got %.17g (%016" PRIx64 "), expected %.17g (%016" PRIx64 "), %zu significant digits", x.d, b, wd, a, n));
    c.nontrivial = n > 3 || t.find_first_of("eE") != std::string::npos;
    c.label(n <= 19 ? "at most 19 digits" : "more than 19 digits");
    if (std::isinf(wd))
      c.label("double overflow");
    else if (wd != 0 && std::fabs(wd) < DBL_MIN)
      c.label("double subnormal");
    if (!std::isinf(wf) && wf != 0 && std::fabs(wf) < FLT_MIN)
      c.label("float subnormal");
    if (diff)
      c.label("double one ulp off (allowed)");
  }
  else if (!num::lenientNumber(t))
  {
    PBT_CHECK(ed != JS::Error::NoError, fmt("malformed number accepted as double %.17g", x.d));
    PBT_CHECK(ef != JS::Error::NoError, fmt("malformed number accepted as float %.9g", double(y.f)));
    c.label("malformed");
    c.nontrivial = true;
  }
  else
    c.label("lenient spelling (no claim)");
}

void run_case(Src &s, Ctx &c)
{
  std::string t;
  switch (s.draw(8))
  {
  case 0: t = ref::genNumber(s); break;
  case 1: t = num::genHalfway(s, true); break;
  case 2: t = num::genHalfway(s, false); break;
  case 3: t = num::genBadNumber(s); break;
  case 4:
  {
    char b[64];
    snprintf(b, sizeof b, "%.*g", int(s.range(1, 25)), num::genDouble(s));
    t = b;
    break;
  }
  case 5:
  {
    char b[64];
    snprintf(b, sizeof b, "%.*g", int(s.range(1, 12)), double(num::genFloat(s)));
    t = b;
    break;
  }
  case 6: t = num::spellNum(s, s.boolean(), ref::genDigits(s, 1 + s.draw(19)), s.range(-345, 310)); break;
  case 7: t = num::spellNum(s, s.boolean(), ref::genDigits(s, 1 + s.draw(60)), s.range(-380, 310)); break;
  }
  bool bad = t.find('"') != std::string::npos || t.find('\\') != std::string::npos;
  check(t, t.find(' ') != std::string::npos || (!bad && s.chance(1, 5)), c);
}

static const char *const FIXED[] = {
  "0", "-0", "0.0", "-0.0", "0e999", "-0e999", "0e-999", "0.00000000000000000001", "0.0000000000000000000000000000012345",
  "123456789012345678901234567890", "18446744073709551615", "18446744073709551616", "18446744073709551617", "1e400", "-1e400", "1e-400",
  "-1e-400", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "1.7976931348623157e308", "1.7976931348623159e308",
  "2.2250738585072011e-308", "2.2250738585072014e-308", "7.006492321624085354618e-46", "7.0064923216240853546186479164495e-46",
  "7.0064923216240853546186479164495806564013097093825788587853e-46", "3.4028235677973366e38", "3.40282356779733661637e38",
  "340282356779733661637539395458142568447", "340282356779733661637539395458142568448", "340282356779733661637539395458142568447.9",
  "1e00000000000000000001", "1e1000000000000000000000", "1e-1000000000000000000000", "9007199254740993", "9007199254740992.5", "0.1", "0.3", "1e22", "1e23",
  "8.5e-5", "16777217", "16777217.0000000001", "-", ".", "e5", "1e", "1e+", "1.2.3", "--1", "1x", "", "-e1", "0x10"};
size_t fixed_count() { return 2 * sizeof FIXED / sizeof *FIXED; }
void run_fixed(size_t i, Ctx &c) { check(FIXED[i / 2], i & 1, c); }
