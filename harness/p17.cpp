#include "shape.h"
using namespace pbt;
using namespace glue;
const char *const PROP_ID = "P17";
const char *const PROP_RULE =
  "Cases parse one to three documents, one after the other, into the same destination: vectors (of int, bool, string, struct, vectors, "
  "pointers, maps, optionals), silent vectors, variable-length buffers, one-or-many, ordered and unordered sets, C arrays, std::array and both "
  "tuple kinds, with element counts around every limit (0, 1, reserve size, capacity, N-1, N, N+1), as a member or as the root. Oracle: "
  "type-directed comparison with the document, must-accept exactly when the count fits, and equality with a fresh destination. "
  "Non-trivial: the destination had contents before, or the count does not fit.";
void prop_init() {}
using namespace shape;

template <typename T>
struct W
{
  T v;
  int after = -1;
  JS_OBJ(v, after);
};

// how many elements to ask for
static size_t count(Src &s, size_t limit)
{
  switch (s.draw(6))
  {
  case 0: return 0;
  case 1: return 1;
  case 2: return limit ? limit - 1 : 0;
  case 3: return limit;
  case 4: return limit + 1;
  default: return size_t(s.draw(limit + 4));
  }
}
template <typename T> struct Lim { static size_t n() { return 10; } };
template <typename T, size_t N> struct Lim<T[N]> { static size_t n() { return N; } };
template <typename T, size_t N> struct Lim<std::array<T, N>> { static size_t n() { return N; } };
template <typename T, size_t N> struct Lim<JS::ArrayVariableContent<T, N>> { static size_t n() { return N; } };
template <typename... A> struct Lim<std::tuple<A...>> { static size_t n() { return sizeof...(A); } };
template <typename... A> struct Lim<JS::Tuple<A...>> { static size_t n() { return sizeof...(A); } };

template <typename T>
static JV resize(Src &s, JV v)
{
  if (v.k != ref::Arr)
    return v;
  size_t n = count(s, Lim<T>::n());
  for (int i = 0; i < 8 && v.a.size() < n; i++)
  {
    JV more = O<T>::gen(s, 0);
    if (more.k == ref::Arr)
      for (auto &x : more.a)
        if (v.a.size() < n)
          v.a.push_back(x);
  }
  if (v.a.size() > n)
    v.a.resize(n);
  return v;
}

template <typename T>
static void one(const char *tn, Src &s, Ctx &c)
{
  W<T> w{};
  size_t steps = 1 + s.draw(3);
  c.identity(tn);
  c.label(std::string("type ") + tn);
  bool full = false;
  for (size_t k = 0; k < steps; k++)
  {
    JV v = O<T>::gen(s, 0);
    if (s.chance(2, 3))
      v = resize<T>(s, v);
    bool root = (v.k == ref::Arr || v.k == ref::Obj) && s.chance(1, 3);
    int after = int(s.range(0, 99));
    JV doc = v;
    if (!root)
    {
      doc = JV::obj();
      doc.o.emplace_back("v", v);
      doc.o.emplace_back("after", JV::num(int64_t(after)));
    }
    std::string t = ref::text(s, doc, false);
    c.identity(t);
    if (c.verbose)
      c.describe("document", printable(t) + "  into " + tn);
    Judge j = O<T>::judge(v);
    Exact e(t);
    JS::ParseContext pc(e.data(), e.size());
    JS::Error er = root ? pc.parseTo(w.v) : pc.parseTo(w);
    std::string where = std::string("step ") + std::to_string(k) + " into " + tn + ": ";
    if (j == Must)
      PBT_CHECK(er == JS::Error::NoError, where + "refused with " + errName(er));
    if (j == Mustnt)
    {
      PBT_CHECK(er != JS::Error::NoError, where + "accepted although the number or kind of elements does not fit");
      c.nontrivial = true;
      c.label("does not fit");
      return;
    }
    if (er != JS::Error::NoError)
      return;
    PBT_CHECK(O<T>::same(w.v, v), where + "does not hold exactly the elements of the document");
    if (!root)
      PBT_CHECK(w.after == after, where + "the next member is not read");
    W<T> f{};
    JS::ParseContext pf(e.data(), e.size());
    er = root ? pf.parseTo(f.v) : pf.parseTo(f);
    PBT_CHECK(er == JS::Error::NoError, where + "a fresh destination is refused");
    std::string a = JS::serializeStruct(w.v), b = JS::serializeStruct(f.v);
    bool unordered = std::string(tn).find("unordered") != std::string::npos;
    // the elements of a variable-length buffer are parsed in place, so members absent from a struct element stay (P13)
    bool in_place = std::string(tn) == "AvcIn";
    PBT_CHECK(unordered || in_place || a == b, where + "previous contents show through: " + a + " instead of " + b);
    if (full)
    {
      c.nontrivial = true;
      c.label("replaces contents");
    }
    full = v.k != ref::Arr || !v.a.empty();
  }
}

typedef std::vector<std::unique_ptr<In>> VUp;
typedef std::vector<JS::Optional<std::string>> VOpt;
typedef std::vector<std::map<std::string, int>> VMp;
typedef std::vector<std::vector<bool>> VVB;
typedef JS::ArrayVariableContent<int, 1> Avc1;
typedef JS::ArrayVariableContent<In, 5> AvcIn;
typedef JS::ArrayVariableContent<std::vector<int>, 2> AvcV;
typedef std::array<int, 1> Ar1;
typedef std::array<double, 17> Ar17;
typedef std::array<std::vector<std::string>, 2> ArV;
typedef int IntMat[2][3];
typedef bool Bool4[4];
typedef std::tuple<std::vector<int>, int, std::string> Tp2;
typedef JS::Tuple<int, int, int> Tp3;
typedef JS::OneOrMany<std::string> OomS;
typedef JS::OneOrMany<In> OomIn;
typedef std::vector<JS::OneOrMany<int>> VOom;
typedef std::vector<Avc4> VAvc;
typedef std::vector<StdTup> VTup;
typedef std::set<std::string> SetS;
typedef std::unordered_set<int> USetI;
typedef std::map<std::string, std::set<int>> MapSet;
typedef std::vector<std::set<std::string>> VSet;
#define SEQS(X)                                                                                                        \
  X(std::vector<int>) X(std::vector<bool>) X(std::vector<std::string>) X(std::vector<double>) X(VVS) X(std::vector<In>) \
  X(VUp) X(VOpt) X(VMp) X(VVB) X(VOom) X(VAvc) X(VTup) X(VSet) X(JS::SilentVector<int>) X(JS::SilentVector<std::string>) \
  X(Avc1) X(Avc4) X(AvcS3) X(AvcIn) X(AvcV) X(OomS) X(OomIn) X(JS::OneOrMany<int>) X(std::set<int>) X(SetS)            \
  X(std::unordered_set<std::string>) X(USetI) X(Int3) X(Str2) X(Bool4) X(IntMat) X(ArS2) X(Ar1) X(Ar17) X(ArV) X(StdTup) \
  X(Tp2) X(JsTup) X(Tp3)
void run_case(Src &s, Ctx &c)
{
#define CNT(T) +1
  size_t n = 0 SEQS(CNT);
  size_t k = s.draw(n);
  size_t i = 0;
#define RUN(T)                                                                                                         \
  if (i++ == k)                                                                                                        \
    one<T>(#T, s, c);
  SEQS(RUN)
}
size_t fixed_count() { return 0; }
void run_fixed(size_t, Ctx &) {}
