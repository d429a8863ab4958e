// Number texts: generators shared by the number properties.  Independent of the library.
#pragma once
#include "refjson.h"
#include <cfloat>

namespace num
{
using pbt::Src;

inline double bits2d(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
inline uint64_t d2bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
inline float bits2f(uint32_t b) { float d; memcpy(&d, &b, 4); return d; }
inline uint32_t f2bits(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }

// a finite double of an interesting class
inline double genDouble(Src &s)
{
  for (;;)
  {
    double d = 0;
    switch (s.draw(10))
    {
    case 0: d = double(s.range(-1000, 1000)); break;
    case 1: d = double(int64_t(s.bits64())); break;
    case 2: d = double(s.range(-100000, 100000)) / double(s.pick(std::vector<int>{10, 100, 1000, 10000, 7, 3})); break;
    case 3: d = bits2d(s.bits64()); break;
    case 4: d = bits2d(s.bits64() & 0x800fffffffffffffull); break; // subnormal or zero
    case 5: // around a power of two
    {
      uint64_t e = 1 + s.draw(2045);
      d = bits2d((e << 52) + uint64_t(s.range(-3, 3)));
      break;
    }
    case 6: // around a power of ten
    {
      char b[32];
      snprintf(b, sizeof b, "1e%d", int(s.range(-323, 308)));
      d = bits2d(d2bits(strtod(b, nullptr)) + uint64_t(s.range(-3, 3)));
      break;
    }
    case 7: // few decimal digits, any exponent
    {
      char b[48];
      snprintf(b, sizeof b, "%de%d", int(s.range(-99999, 99999)), int(s.range(-330, 304)));
      d = strtod(b, nullptr);
      break;
    }
    case 8: d = bits2d((s.draw(2) << 63) + s.pick(std::vector<uint64_t>{0, 1, 2, 0x000fffffffffffffull, 0x0010000000000000ull, 0x0010000000000001ull, 0x7fefffffffffffffull, 0x7feffffffffffffeull, 0x3ff0000000000000ull, 0x4340000000000000ull, 0x433fffffffffffffull, 0x4340000000000001ull})); break;
    case 9: d = bits2d((s.bits64() & 0xfff0000000000000ull) | (s.draw(1 << 20) << 32)); break;
    }
    if (std::isfinite(d))
      return d;
  }
}

inline float genFloat(Src &s)
{
  for (;;)
  {
    float d = 0;
    switch (s.draw(8))
    {
    case 0: d = float(s.range(-1000, 1000)); break;
    case 1: d = float(s.range(-100000, 100000)) / float(s.pick(std::vector<int>{10, 100, 1000, 7, 3})); break;
    case 2: d = bits2f(uint32_t(s.draw(1ull << 32))); break;
    case 3: d = bits2f(uint32_t(s.draw(1ull << 32)) & 0x807fffffu); break;
    case 4: d = bits2f((uint32_t(1 + s.draw(253)) << 23) + uint32_t(s.range(-3, 3))); break;
    case 5:
    {
      char b[32];
      snprintf(b, sizeof b, "1e%d", int(s.range(-45, 38)));
      d = bits2f(f2bits(strtof(b, nullptr)) + uint32_t(s.range(-3, 3)));
      break;
    }
    case 6:
    {
      char b[48];
      snprintf(b, sizeof b, "%de%d", int(s.range(-99999, 99999)), int(s.range(-48, 35)));
      d = strtof(b, nullptr);
      break;
    }
    case 7: d = bits2f((uint32_t(s.draw(2)) << 31) + s.pick(std::vector<uint32_t>{0, 1, 2, 0x7fffffu, 0x800000u, 0x800001u, 0x7f7fffffu, 0x7f7ffffeu, 0x3f800000u, 0x4b800000u, 0x4b800001u})); break;
    }
    if (std::isfinite(d))
      return d;
  }
}

// increments / decrements the last digit of a digit string (no sign), may change its length by one
inline std::string bump(std::string d, int by)
{
  size_t i = d.size();
  if (by > 0)
  {
    while (i > 0)
    {
      i--;
      if (d[i] == '9')
        d[i] = '0';
      else
      {
        d[i]++;
        return d;
      }
    }
    return "1" + d;
  }
  while (i > 0)
  {
    i--;
    if (d[i] == '0')
      d[i] = '9';
    else
    {
      d[i]--;
      return d;
    }
  }
  return d;
}

// digits and exponent (value = digits * 10^exp) in some legal JSON spelling
inline std::string spellNum(Src &s, bool neg, std::string dig, long exp)
{
  size_t z = dig.find_first_not_of('0');
  dig = z == std::string::npos ? "0" : dig.substr(z);
  if (s.chance(1, 4)) // trailing zeros
  {
    size_t n = s.draw(25);
    dig.append(n, '0');
    exp -= long(n);
  }
  std::string o = neg ? "-" : "";
  auto ex = [&](long e) {
    std::string r(1, s.boolean() ? 'E' : 'e');
    if (e < 0)
      r += '-';
    else if (s.boolean())
      r += '+';
    if (s.chance(1, 8))
      r.append(s.draw(4), '0');
    return r + std::to_string(e < 0 ? -e : e);
  };
  size_t style = s.draw(4);
  if (style == 0 && exp >= 0 && exp < 340)
    return o + (dig == "0" ? dig : dig + std::string(size_t(exp), '0'));
  if (style == 1 && exp < 0 && exp > -1200)
  {
    size_t k = size_t(-exp);
    if (k < dig.size())
      return o + dig.substr(0, dig.size() - k) + "." + dig.substr(dig.size() - k);
    return o + "0." + std::string(k - dig.size(), '0') + dig;
  }
  if (style == 2)
    return o + dig + ex(exp);
  // point somewhere inside
  size_t at = 1 + s.draw(dig.size());
  if (at >= dig.size())
    return o + dig + ex(exp);
  return o + dig.substr(0, at) + "." + dig.substr(at) + ex(exp + long(dig.size() - at));
}

// exact decimal digits of a finite positive value
inline void exactDigits(long double v, std::string &dig, long &exp)
{
  char b[12000];
  snprintf(b, sizeof b, "%.11000Le", v);
  std::string t = b;
  size_t e = t.find('e');
  exp = atol(t.c_str() + e + 1);
  dig = t.substr(0, 1) + t.substr(2, e - 2);
  while (dig.size() > 1 && dig.back() == '0')
    dig.pop_back();
  exp -= long(dig.size()) - 1;
}

// a number text close to (or exactly at) the midpoint between neighbouring floats or doubles
inline std::string genHalfway(Src &s, bool is_float)
{
  long double mid;
  if (is_float)
  {
    float f = std::fabs(genFloat(s));
    uint32_t b = f2bits(f);
    if (b == 0x7f7fffffu)
      mid = 340282356779733661637539395458142568448.0L; // half-way to 2^128
    else
      mid = ((long double)f + (long double)bits2f(b + 1)) / 2;
  }
  else
  {
    double d = std::fabs(genDouble(s));
    uint64_t b = d2bits(d);
    if (b == 0x7fefffffffffffffull)
      mid = (long double)d + ldexpl(1.0L, 970);
    else
      mid = ((long double)d + (long double)bits2d(b + 1)) / 2;
  }
  std::string dig;
  long exp;
  exactDigits(mid, dig, exp);
  bool neg = s.chance(1, 4);
  switch (s.draw(6))
  {
  case 0: break;
  case 1: // exactly the midpoint plus a digit far out
  {
    size_t n = s.draw(30);
    dig += std::string(n, '0') + "1";
    exp -= long(n) + 1;
    break;
  }
  case 2: dig = bump(dig, 1); break;
  case 3: dig = bump(dig, -1); break;
  default: // cut to n digits, possibly rounded up
  {
    size_t n = 1 + s.draw(s.boolean() ? 22 : 60);
    if (n < dig.size())
    {
      exp += long(dig.size() - n);
      dig.resize(n);
      if (s.boolean())
        dig = bump(dig, 1);
    }
    break;
  }
  }
  return spellNum(s, neg, dig, exp);
}

// texts that may be a number or not
inline bool lenientNumber(const std::string &t)
{
  size_t i = 0;
  while (i < t.size() && (t[i] == ' ' || (t[i] >= 9 && t[i] <= 13)))
    i++;
  if (i < t.size() && (t[i] == '-' || t[i] == '+'))
    i++;
  size_t digits = 0, dots = 0;
  while (i < t.size() && ((t[i] >= '0' && t[i] <= '9') || t[i] == '.'))
  {
    if (t[i] == '.')
      dots++;
    else
      digits++;
    i++;
  }
  if (!digits || dots > 1)
    return false;
  if (i < t.size() && (t[i] == 'e' || t[i] == 'E'))
  {
    i++;
    if (i < t.size() && (t[i] == '-' || t[i] == '+'))
      i++;
    size_t n = 0;
    while (i < t.size() && t[i] >= '0' && t[i] <= '9')
      i++, n++;
    if (!n)
      return false;
  }
  return i == t.size();
}
inline bool strictNumber(const std::string &t)
{
  ref::Parser p(t, false);
  std::string raw;
  return p.number(raw) && p.p == t.size();
}

inline std::string genBadNumber(Src &s)
{
  std::string t = ref::genNumber(s);
  size_t n = 1 + s.draw(2);
  for (size_t i = 0; i < n; i++)
  {
    static const char alpha[] = "-+.eE019x ";
    size_t at = s.draw(t.size() + 1);
    switch (s.draw(4))
    {
    case 0: t.insert(at, 1, alpha[s.draw(sizeof alpha - 1)]); break;
    case 1:
      if (at < t.size())
        t.erase(at, 1);
      break;
    case 2: t.resize(at); break;
    case 3:
      if (at < t.size())
        t[at] = alpha[s.draw(sizeof alpha - 1)];
      break;
    }
  }
  return t;
}
} // namespace num
