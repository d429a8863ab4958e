#pragma once
#include "jsutil.h"
namespace glue
{
struct MetaRef
{
  size_t position = 0, size = 0, skip = 0, children = 0, complex_children = 0;
  bool is_array = false, has_data = false;
};
// One entry per container, in document order, from the tokens alone. Returns the index after the value at i.
inline size_t metaRef(const std::vector<JS::Token> &t, size_t i, std::vector<MetaRef> &out, bool &data)
{
  PBT_CHECK(i < t.size(), "the token list ends inside a value");
  JS::Type k = t[i].value_type;
  if (k != JS::Type::ArrayStart && k != JS::Type::ObjectStart)
  {
    data = true;
    return i + 1;
  }
  size_t me = out.size();
  out.emplace_back();
  MetaRef m;
  m.position = i;
  m.is_array = k == JS::Type::ArrayStart;
  JS::Type end = m.is_array ? JS::Type::ArrayEnd : JS::Type::ObjectEnd;
  size_t j = i + 1;
  while (true)
  {
    PBT_CHECK(j < t.size(), "the token list ends inside a container");
    if (t[j].value_type == end)
      break;
    PBT_CHECK(t[j].value_type != JS::Type::ArrayEnd && t[j].value_type != JS::Type::ObjectEnd, "unbalanced token list");
    m.children++;
    if (t[j].value_type == JS::Type::ArrayStart || t[j].value_type == JS::Type::ObjectStart)
      m.complex_children++;
    j = metaRef(t, j, out, m.has_data);
  }
  m.size = j + 1 - i;
  m.skip = out.size() - me;
  out[me] = m;
  data = data || m.has_data;
  return j + 1;
}
inline std::string showMeta(size_t i, const char *what, size_t got, size_t want)
{
  return "entry " + std::to_string(i) + " has " + what + " " + std::to_string(got) + " instead of " + std::to_string(want);
}
inline void compareMeta(const std::vector<JS::JsonMeta> &got, const std::vector<MetaRef> &want, const std::string &where)
{
  PBT_CHECK(got.size() == want.size(), where + ": the index has " + std::to_string(got.size()) + " entries for " + std::to_string(want.size()) + " containers");
  for (size_t i = 0; i < got.size(); i++)
  {
#define CMP(f) PBT_CHECK(size_t(got[i].f) == size_t(want[i].f), where + ": " + showMeta(i, #f, got[i].f, want[i].f))
    CMP(position);
    CMP(size);
    CMP(skip);
    CMP(children);
    CMP(complex_children);
    CMP(is_array);
    CMP(has_data);
#undef CMP
  }
}
} // namespace glue
