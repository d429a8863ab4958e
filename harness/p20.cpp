#include "shape.h"
#include "metaref.h"
#include "feed.h"
using namespace pbt;
using namespace glue;
using shape::JV;
const char *const PROP_ID = "P20";
const char *const PROP_RULE =
  "Cases are documents made of nested objects and arrays with few scalars (bushy, or chains up to 400 deep, or wide up to 300 children, or "
  "ordinary documents), recorded as JsonTokens from text and as a member of a struct. Oracle: an independent recursive count over the "
  "tokens (position, extent, number of containers, direct children, direct containers, kind, any scalar below), the first child with data, "
  "and walking the children of every container by the index. Non-trivial: at least three containers, two of them at different depths.";
void prop_init() {}

static JV shapeOf(Src &s, int depth, int maxdepth, unsigned scalar, size_t &budget)
{
  if (budget == 0)
    return JV::num(int64_t(1));
  budget--;
  if (depth >= maxdepth || s.draw(100) < scalar)
  {
    switch (s.draw(4))
    {
    case 0: return JV::null();
    case 1: return JV::str(s.boolean() ? "" : "]}[{");
    case 2: return JV::boolean(false);
    default: return JV::num(int64_t(s.draw(10)));
    }
  }
  bool arr = s.boolean();
  JV v = arr ? JV::arr() : JV::obj();
  size_t n = s.size(6);
  for (size_t i = 0; i < n; i++)
  {
    if (arr)
      v.a.push_back(shapeOf(s, depth + 1, maxdepth, scalar, budget));
    else
      v.o.emplace_back(s.chance(1, 10) ? "" : std::string(1, char('a' + i)), shapeOf(s, depth + 1, maxdepth, scalar, budget));
  }
  return v;
}
struct H
{
  JS::JsonTokens t;
  JS_OBJ(t);
};
static void verify(const JS::JsonTokens &t)
{
  std::vector<MetaRef> want;
  bool data = false;
  size_t n = t.data.empty() ? 0 : metaRef(t.data, 0, want, data);
  PBT_CHECK(n == t.data.size(), "tokens after the end of the value");
  std::vector<JS::JsonMeta> got = JS::metaForTokens(t);
  compareMeta(got, want, "metaForTokens");
  for (size_t i = 0; i < got.size(); i++)
  {
    // walk the children: tokens between containers are scalars, containers are skipped by their entry
    size_t pos = got[i].position + 1, m = i + 1, kids = 0, cx = 0, first = size_t(-1);
    JS::Type end = got[i].is_array ? JS::Type::ArrayEnd : JS::Type::ObjectEnd;
    while (pos < t.data.size() && t.data[pos].value_type != end)
    {
      kids++;
      if (m < got.size() && got[m].position == pos)
      {
        if (got[m].has_data && first == size_t(-1))
          first = cx;
        cx++;
        pos += got[m].size;
        m += got[m].skip;
      }
      else
      {
        JS::Type k = t.data[pos].value_type;
        PBT_CHECK(k != JS::Type::ArrayStart && k != JS::Type::ObjectStart && k != JS::Type::ArrayEnd && k != JS::Type::ObjectEnd,
                  "skipping by entry " + std::to_string(i) + " lands inside a container");
        pos++;
      }
    }
    PBT_CHECK(kids == got[i].children && cx == got[i].complex_children && pos + 1 == got[i].position + got[i].size && m == i + got[i].skip,
              "walking the children of entry " + std::to_string(i) + " by the index");
    PBT_CHECK(JS::Internal::findFirstChildWithData(got, i) == first, "first child with data of entry " + std::to_string(i));
  }
}
void run_case(Src &s, Ctx &c)
{
  JV v;
  size_t budget = 400;
  switch (s.weighted({5, 2, 1, 2, 1}))
  {
  case 0: v = shapeOf(s, 0, 6, 15 + unsigned(s.draw(40)), budget); break;
  case 1:
  {
    v = s.boolean() ? JV::num(int64_t(1)) : JV::arr();
    size_t n = 1 + s.draw(s.chance(1, 4) ? 400 : 20);
    for (size_t i = 0; i < n; i++)
    {
      JV p = s.boolean() ? JV::arr() : JV::obj();
      bool before = s.chance(1, 6), after = s.chance(1, 6);
      auto add = [&](JV x) {
        if (p.k == ref::Arr)
          p.a.push_back(std::move(x));
        else
          p.o.emplace_back("m" + std::to_string(p.o.size()), std::move(x));
      };
      if (before)
        add(s.boolean() ? JV::arr() : JV::null());
      add(std::move(v));
      if (after)
        add(s.boolean() ? JV::obj() : JV::boolean(true));
      v = std::move(p);
    }
    break;
  }
  case 2:
  {
    v = s.boolean() ? JV::arr() : JV::obj();
    size_t n = s.draw(s.chance(1, 3) ? 300 : 40);
    for (size_t i = 0; i < n; i++)
    {
      size_t b = 3;
      JV x = shapeOf(s, 0, 2, 50, b);
      if (v.k == ref::Arr)
        v.a.push_back(x);
      else
        v.o.emplace_back("k" + std::to_string(i), x);
    }
    break;
  }
  case 3: v = ref::genDoc(s); break;
  default: v = shape::wild(s); break;
  }
  std::string t = ref::text(s, v, true);
  c.identity(t);
  if (c.verbose)
    c.describe("document", printable(t));
  bool member = (v.k != ref::Arr && v.k != ref::Obj) || s.chance(1, 4);
  if (member)
  {
    Exact e("{\"t\":" + t + "}");
    H h;
    JS::ParseContext pc(e.data(), e.size());
    PBT_CHECK(pc.parseTo(h) == JS::Error::NoError, "the document is refused");
    PBT_CHECK(shape::tokensDenote(h.t.data, v), "the recorded tokens are not those of the document");
    verify(h.t);
  }
  else
  {
    Exact e(t);
    JS::JsonTokens tk;
    JS::ParseContext pc(e.data(), e.size());
    PBT_CHECK(pc.parseTo(tk) == JS::Error::NoError, "the document is refused");
    PBT_CHECK(shape::tokensDenote(tk.data, v), "the recorded tokens are not those of the document");
    verify(tk);
    std::vector<MetaRef> m;
    bool d = false;
    metaRef(tk.data, 0, m, d);
    if (m.size() > 2 && m[0].skip != m[0].complex_children + 1)
      c.nontrivial = true;
    c.label("containers<=" + std::to_string(m.size() < 2 ? 1 : m.size() < 10 ? 9 : m.size() < 100 ? 99 : 1000));
  }
}
size_t fixed_count() { return 1; }
void run_fixed(size_t, Ctx &)
{
  JS::JsonTokens none;
  PBT_CHECK(JS::metaForTokens(none).empty(), "index of nothing");
}
