#include "jsutil.h"
#include "numutil.h"
using namespace pbt;
using namespace glue;
const char *const PROP_ID = "P11";
const char *const PROP_RULE =
  "Cases are doubles and floats: random bit patterns, subnormals, neighbours of powers of two and ten, short decimals, "
  "integers, limits, signed zeros, and non-finite values. Oracle: strtod/strtof of the printed text, the library's own "
  "reader, the smallest %.*e precision that reads back, and a build without 128-bit integers (same text). Non-trivial: a finite value needing more than 2 digits.";
void prop_init() {}
namespace portable
{
std::string text(double d, float f, bool compact);
}

struct DF
{
  double d = 0;
  float f = 0;
  JS_OBJ(d, f);
};

static size_t sigDigits(const std::string &t)
{
  std::string c = ref::canonNum(t);
  size_t e = c.find('e');
  return e == std::string::npos ? 0 : e - (c[0] == '-');
}

// characters that carry no information: zeros at the end of a fraction (one zero after the point is allowed)
static void noPadding(const std::string &t)
{
  size_t p = t.find('.');
  if (p == std::string::npos)
    return;
  size_t e = t.find_first_of("eE");
  std::string fr = t.substr(p + 1, e == std::string::npos ? std::string::npos : e - p - 1);
  PBT_CHECK(fr.size() == 1 || fr.back() != '0', "padded fraction " + t);
}

static void check(double d, float f, bool compact, Ctx &c)
{
  DF x;
  x.d = d;
  x.f = f;
  c.identity(fmt("%016" PRIx64 " %08x", num::d2bits(d), num::f2bits(f)));
  if (c.verbose)
    c.describe("values", fmt("double %.17g (%016" PRIx64 ") float %.9g (%08x)", d, num::d2bits(d), double(f), num::f2bits(f)));
  std::string t = JS::serializeStruct(x, JS::SerializerOptions(compact ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty));
  std::string pt = portable::text(d, f, compact);
  PBT_CHECK(pt == t, "a build without 128-bit integers prints " + pt + " instead of " + t);
  ref::JV v;
  std::string err;
  PBT_CHECK(ref::parse(t, v, &err), "not JSON: " + t + " " + err);
  PBT_CHECK(v.k == ref::Obj && v.o.size() == 2, t);
  const ref::JV &jd = v.o[0].second, &jf = v.o[1].second;
  DF y;
  y.d = 5;
  y.f = 5;
  if (std::isfinite(d))
  {
    PBT_CHECK(jd.k == ref::Num, t);
    PBT_CHECK(num::d2bits(strtod(jd.s.c_str(), nullptr)) == num::d2bits(d), "double text " + jd.s + fmt(" is not %.17g", d));
    size_t need = 17;
    char b[64];
    for (int n = 1; n <= 17; n++)
    {
      snprintf(b, sizeof b, "%.*e", n - 1, d);
      if (strtod(b, nullptr) == d)
      {
        need = size_t(n);
        break;
      }
    }
    PBT_CHECK(sigDigits(jd.s) <= need, "double printed as " + jd.s + ", " + std::to_string(need) + " digits suffice: " + b);
    noPadding(jd.s);
    c.nontrivial = need > 2;
    if (d != 0 && std::fabs(d) < DBL_MIN)
      c.label("double subnormal");
    Exact e("{\"d\":" + jd.s + "}");
    JS::ParseContext p(e.data(), e.size());
    PBT_CHECK(p.parseTo(y) == JS::Error::NoError, "cannot read back " + jd.s);
    PBT_CHECK(num::d2bits(y.d) == num::d2bits(d), "reads back " + jd.s + fmt(" as %.17g", y.d));
  }
  else
  {
    PBT_CHECK(jd.k == ref::Null, "non-finite double written as " + t);
    c.label("non-finite");
  }
  if (std::isfinite(f))
  {
    PBT_CHECK(jf.k == ref::Num, t);
    PBT_CHECK(num::f2bits(strtof(jf.s.c_str(), nullptr)) == num::f2bits(f), "float text " + jf.s + fmt(" is not %.9g", double(f)));
    size_t need = 9;
    char b[64];
    for (int n = 1; n <= 9; n++)
    {
      snprintf(b, sizeof b, "%.*e", n - 1, double(f));
      if (strtof(b, nullptr) == f)
      {
        need = size_t(n);
        break;
      }
    }
    PBT_CHECK(sigDigits(jf.s) <= need, "float printed as " + jf.s + ", " + std::to_string(need) + " digits suffice: " + b);
    noPadding(jf.s);
    if (f != 0 && std::fabs(f) < FLT_MIN)
      c.label("float subnormal");
    Exact e("{\"f\":" + jf.s + "}");
    JS::ParseContext p(e.data(), e.size());
    PBT_CHECK(p.parseTo(y) == JS::Error::NoError, "cannot read back " + jf.s);
    PBT_CHECK(num::f2bits(y.f) == num::f2bits(f), "reads back " + jf.s + fmt(" as %.9g", double(y.f)));
  }
  else
    PBT_CHECK(jf.k == ref::Null, "non-finite float written as " + t);
}

void run_case(Src &s, Ctx &c)
{
  double d = num::genDouble(s);
  float f = num::genFloat(s);
  if (s.chance(1, 40))
    d = s.pick(std::vector<double>{INFINITY, -INFINITY, NAN, -NAN});
  if (s.chance(1, 40))
    f = s.pick(std::vector<float>{INFINITY, -INFINITY, NAN, -NAN});
  check(d, f, s.boolean(), c);
}

// every power of two and its neighbours, both formats
size_t fixed_count() { return 2046 * 3; }
void run_fixed(size_t i, Ctx &c)
{
  uint64_t e = 1 + i / 3;
  double d = num::bits2d((e << 52) + (i % 3) - 1);
  float f = num::bits2f(((uint32_t(e) % 254 + 1) << 23) + uint32_t(i % 3) - 1);
  if (!std::isfinite(f))
    f = FLT_MAX;
  check(d, f, i & 1, c);
}
