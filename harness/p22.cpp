#include "shape.h"
#include "feed.h"
#include <memory>
using namespace pbt;
using namespace glue;
using namespace shape;
const char *const PROP_ID = "P22";
const char *const PROP_RULE =
  "Cases are request objects of up to 10 members naming functions of a class with two bases (31 functions: void, scalar, string, container, "
  "struct, map, optional, pointer and raw parameters by value, const reference and reference; void and non-void results; plain, with error "
  "context, with call context; aliases; also a class declared externally) or unknown names, with suitable, unsuitable and damaged parameters, "
  "functions that report errors at planned calls, each combination of allow_missing and stop_execute_on_fail, one or several input buffers, "
  "truncated requests, both output styles. Oracle: a model of the calls (order, count, parameter), of the reply array and of the execution "
  "report. Non-trivial: at least two entries and at least one failing or aliased or base-class entry.";
void prop_init() {}
namespace
{
typedef std::string Str;
struct Call
{
  Str id;
  std::function<bool(const JV &)> arg; // empty: no parameter
};
struct Log
{
  std::vector<Call> calls;
  std::vector<bool> plan; // the n-th call that can fail does so
  size_t can_fail = 0;
  Str last_msg;
  bool fails()
  {
    size_t i = can_fail++;
    return i < plan.size() && plan[i];
  }
};
Log *L = nullptr;
template <typename T>
void note(const char *id, T &t)
{
  auto p = std::make_shared<typename std::decay<T>::type>(std::move(t));
  L->calls.push_back({id, [p](const JV &v) { return O<typename std::decay<T>::type>::same(*p, v); }});
}
void note0(const char *id) { L->calls.push_back({id, nullptr}); }
size_t no() { return L->calls.size(); }
Str msg() { return "planned failure " + std::to_string(L->can_fail); }
In mkIn(size_t n)
{
  In x;
  x.i = int(n);
  x.s = "ret \"" + std::to_string(n) + "\\";
  x.v = {1, int(n)};
  x.e = n % 2;
  return x;
}
typedef std::map<Str, std::vector<int>> MapVI;
struct B1
{
  void b1_void() { note0("b1_void"); }
  int b1_int(int a) { note("b1_int", a); return int(no()); }
  Str b1_str(const Str &a) { Str c = a; note("b1_str", c); return "s" + std::to_string(no()); }
  JS_FUNC_OBJ(b1_void, b1_int, b1_str);
};
struct B2
{
  std::vector<int> b2_vec(std::vector<int> a) { note("b2_vec", a); return {int(no()), 2}; }
  void b2_ctx(const In &a, JS::CallFunctionContext &x)
  {
    In c = a;
    note("b2_ctx", c);
    if (L->fails())
      x.error_context.setError(msg());
  }
  JS_FUNCTION_CONTAINER(JS_FUNCTION(b2_vec), JS_FUNCTION_ALIASES(b2_ctx, "b2_other", "b2_third"));
};
struct E : B1, B2
{
  void v_v() { note0("v_v"); }
  void v_ve(JS::CallFunctionErrorContext &x) { note0("v_ve"); if (L->fails()) x.setError(msg()); }
  void v_vc(JS::CallFunctionContext &x) { note0("v_vc"); if (L->fails()) x.error_context.setError(msg()); }
  int i_v() { note0("i_v"); return int(no()); }
  Str s_ve(JS::CallFunctionErrorContext &x) { note0("s_ve"); if (L->fails()) x.setError(msg()); return "e" + std::to_string(no()); }
  In o_vc(JS::CallFunctionContext &x) { note0("o_vc"); if (L->fails()) x.error_context.setError(msg()); return mkIn(no()); }
  void v_i(int a) { note("v_i", a); }
  void v_ie(int a, JS::CallFunctionErrorContext &x) { note("v_ie", a); if (L->fails()) x.setError(JS::Error::IllegalDataValue, msg()); }
  void v_ic(const int &a, JS::CallFunctionContext &x) { int c = a; note("v_ic", c); if (L->fails()) x.error_context.setError(msg()); }
  int i_i(int a) { note("i_i", a); return int(no()); }
  bool b_ie(bool a, JS::CallFunctionErrorContext &x) { note("b_ie", a); if (L->fails()) x.setError(msg()); return no() % 2; }
  double d_ic(const double &a, JS::CallFunctionContext &x) { double c = a; note("d_ic", c); if (L->fails()) x.error_context.setError(msg()); return 0.5 + double(no()); }
  Str s_s(Str &a) { note("s_s", a); return "t" + std::to_string(no()); }
  In o_o(const In &a) { In c = a; note("o_o", c); return mkIn(no()); }
  std::vector<In> vo_vo(std::vector<In> a) { note("vo_vo", a); return {mkIn(1), mkIn(no())}; }
  MapVI m_m(const MapVI &a) { MapVI c = a; note("m_m", c); return {{"k", {int(no())}}}; }
  std::vector<Str> vs_oi(const JS::NullableChecked<Str> &a) { auto c = a; note("vs_oi", c); return {"", std::to_string(no())}; }
  void v_p(std::unique_ptr<In> &a) { note("v_p", a); }
  void v_raw(const JS::JsonObject &a) { auto c = a; note("v_raw", c); }
  int i_rawa(JS::JsonArray a) { note("i_rawa", a); return int(no()); }
  void v_arr(const std::array<Str, 2> &a) { auto c = a; note("v_arr", c); }
  void v_tup(const StdTup &a) { auto c = a; note("v_tup", c); }
  void v_set(const std::set<int> &a) { auto c = a; note("v_set", c); }
  void v_enum(ty::Color a) { note("v_enum", a); }
  void v_one(const JS::OneOrMany<int> &a) { auto c = a; note("v_one", c); }
  void v_alias(int a) { note("v_alias", a); }
  Str named(Str a) { note("with name", a); return "n" + std::to_string(no()); }
  JS_FUNCTION_CONTAINER_WITH_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(B1), JS_SUPER_CLASS(B2)), JS_FUNCTION(v_v), JS_FUNCTION(v_ve),
                                   JS_FUNCTION(v_vc), JS_FUNCTION(i_v), JS_FUNCTION(s_ve), JS_FUNCTION(o_vc), JS_FUNCTION(v_i),
                                   JS_FUNCTION(v_ie), JS_FUNCTION(v_ic), JS_FUNCTION(i_i), JS_FUNCTION(b_ie), JS_FUNCTION(d_ic),
                                   JS_FUNCTION(s_s), JS_FUNCTION(o_o), JS_FUNCTION(vo_vo), JS_FUNCTION(m_m), JS_FUNCTION(vs_oi),
                                   JS_FUNCTION(v_p), JS_FUNCTION(v_raw), JS_FUNCTION(i_rawa), JS_FUNCTION(v_arr), JS_FUNCTION(v_tup),
                                   JS_FUNCTION(v_set), JS_FUNCTION(v_enum), JS_FUNCTION(v_one),
                                   JS_FUNCTION_ALIASES(v_alias, "first alias", "al2", "v_aliaz"), JS_FUNCTION_WITH_NAME(named, "with name"));
};
struct X
{
  int i_i(int a) { note("i_i", a); return int(no()); }
  void v_v() { note0("v_v"); }
  Str s_s(Str &a) { note("s_s", a); return "t" + std::to_string(no()); }
  void b2_ctx(const In &a, JS::CallFunctionContext &x)
  {
    In c = a;
    note("b2_ctx", c);
    if (L->fails())
      x.error_context.setError(msg());
  }
};
} // namespace
JS_FUNC_OBJ_EXTERNAL(X, i_i, v_v, s_s, b2_ctx)
namespace
{
enum Ret { None, Int, BoolR, Dbl, StrT, StrE, StrS, StrN, InR, VecIn, MapR, VecStr, VecB2 };
struct Fn
{
  const char *name; // as requested
  const char *id;
  bool ext;         // also in the external class
  bool can_fail;
  JV (*gen)(Src &, int); // null: takes nothing
  Judge (*judge)(const JV &);
  Ret ret;
  bool is_in;
  bool special; // alias or base
};
#define A(T) &O<T>::gen, &O<T>::judge
#define Z nullptr, nullptr
const Fn fns[] = {
  {"v_v", "v_v", true, false, Z, None, false, false},
  {"v_ve", "v_ve", false, true, Z, None, false, false},
  {"v_vc", "v_vc", false, true, Z, None, false, false},
  {"i_v", "i_v", false, false, Z, Int, false, false},
  {"s_ve", "s_ve", false, true, Z, StrE, false, false},
  {"o_vc", "o_vc", false, true, Z, InR, false, false},
  {"v_i", "v_i", false, false, A(int), None, false, false},
  {"v_ie", "v_ie", false, true, A(int), None, false, false},
  {"v_ic", "v_ic", false, true, A(int), None, false, false},
  {"i_i", "i_i", true, false, A(int), Int, false, false},
  {"b_ie", "b_ie", false, true, A(bool), BoolR, false, false},
  {"d_ic", "d_ic", false, true, A(double), Dbl, false, false},
  {"s_s", "s_s", true, false, A(Str), StrT, false, false},
  {"o_o", "o_o", false, false, A(In), InR, true, false},
  {"vo_vo", "vo_vo", false, false, A(std::vector<In>), VecIn, false, false},
  {"m_m", "m_m", false, false, A(MapVI), MapR, false, false},
  {"vs_oi", "vs_oi", false, false, A(JS::NullableChecked<Str>), VecStr, false, false},
  {"v_p", "v_p", false, false, A(std::unique_ptr<In>), None, false, false},
  {"v_raw", "v_raw", false, false, A(JS::JsonObject), None, false, false},
  {"i_rawa", "i_rawa", false, false, A(JS::JsonArray), Int, false, false},
  {"v_arr", "v_arr", false, false, A(ArS2), None, false, false},
  {"v_tup", "v_tup", false, false, A(StdTup), None, false, false},
  {"v_set", "v_set", false, false, A(std::set<int>), None, false, false},
  {"v_enum", "v_enum", false, false, A(ty::Color), None, false, false},
  {"v_one", "v_one", false, false, A(JS::OneOrMany<int>), None, false, false},
  {"v_alias", "v_alias", false, false, A(int), None, false, false},
  {"first alias", "v_alias", false, false, A(int), None, false, true},
  {"al2", "v_alias", false, false, A(int), None, false, true},
  {"v_aliaz", "v_alias", false, false, A(int), None, false, true},
  {"with name", "with name", false, false, A(Str), StrN, false, false},
  {"b1_void", "b1_void", false, false, Z, None, false, true},
  {"b1_int", "b1_int", false, false, A(int), Int, false, true},
  {"b1_str", "b1_str", false, false, A(Str), StrS, false, true},
  {"b2_vec", "b2_vec", false, false, A(std::vector<int>), VecB2, false, true},
  {"b2_ctx", "b2_ctx", true, true, A(In), None, true, true},
  {"b2_other", "b2_ctx", false, true, A(In), None, true, true},
  {"b2_third", "b2_ctx", false, true, A(In), None, true, true},
};
const size_t NF = sizeof(fns) / sizeof(fns[0]);
JV jin(size_t n)
{
  In x = mkIn(n);
  JV v = JV::obj();
  v.o.emplace_back("i", JV::num(int64_t(x.i)));
  v.o.emplace_back("s", JV::str(x.s));
  JV a = JV::arr();
  for (int k : x.v)
    a.a.push_back(JV::num(int64_t(k)));
  v.o.emplace_back("v", a);
  v.o.emplace_back("e", JV::boolean(x.e));
  return v;
}
JV retOf(Ret r, size_t n)
{
  auto vi = [](std::vector<int> x) {
    JV a = JV::arr();
    for (int k : x)
      a.a.push_back(JV::num(int64_t(k)));
    return a;
  };
  Str d = std::to_string(n);
  switch (r)
  {
  case Int: return JV::num(int64_t(n));
  case BoolR: return JV::boolean(n % 2);
  case Dbl: return JV::num(d + ".5");
  case StrT: return JV::str("t" + d);
  case StrE: return JV::str("e" + d);
  case StrS: return JV::str("s" + d);
  case StrN: return JV::str("n" + d);
  case InR: return jin(n);
  case VecIn:
  {
    JV a = JV::arr();
    a.a.push_back(jin(1));
    a.a.push_back(jin(n));
    return a;
  }
  case MapR:
  {
    JV o = JV::obj();
    o.o.emplace_back("k", vi({int(n)}));
    return o;
  }
  case VecStr:
  {
    JV a = JV::arr();
    a.a.push_back(JV::str(""));
    a.a.push_back(JV::str(d));
    return a;
  }
  case VecB2: return vi({int(n), 2});
  default: return JV::null();
  }
}
struct Entry
{
  Str name;
  const Fn *f;
  JV v;
};
std::vector<Str> sorted(std::vector<Str> v)
{
  std::sort(v.begin(), v.end());
  return v;
}
void go(Src &s, Ctx &c)
{
  bool ext = s.chance(1, 6);
  std::vector<Entry> es;
  size_t n = s.size(10);
  JV doc = JV::obj();
  for (size_t i = 0; i < n; i++)
  {
    Entry e;
    e.f = nullptr;
    if (s.chance(1, 8))
    {
      static const char *const near[] = {"", "v_", "v_vv", "V_V", "i_i ", "al", "al22", "first", "b1_voi", "no such function", "v_v\\u0000", "call\"s"};
      e.name = s.boolean() ? Str(s.pick(near)) : ref::genString(s, 20);
      for (auto &f : fns)
        if (e.name == f.name)
          e.name = "?";
      e.v = wild(s);
    }
    else
    {
      e.f = &fns[s.draw(NF)];
      e.name = e.f->name;
      if (!e.f->gen)
      {
        switch (s.draw(4))
        {
        case 0: e.v = JV::null(); break;
        case 1: e.v = JV::boolean(s.boolean()); break;
        default: e.v = ref::genDoc(s); break;
        }
      }
      else
      {
        e.v = e.f->gen(s, 1);
        if (s.chance(1, 6))
          damage(s, e.v);
      }
      if (ext && !e.f->ext)
        e.f = nullptr;
    }
    doc.o.emplace_back(e.name, e.v);
    es.push_back(e);
  }
  Log log;
  L = &log;
  for (size_t i = 0; i < 10; i++)
    log.plan.push_back(s.chance(1, 4));
  std::vector<bool> plan = log.plan;
  bool stop = s.boolean(), allow = s.boolean();
  Str t = ref::text(s, doc, false);
  bool cut = s.chance(1, 10);
  if (cut)
  {
    while (!t.empty() && strchr(" \t\r\n", t.back()))
      t.pop_back();
    t.resize(s.draw(t.size()));
  }
  c.identity(t);
  c.identity(std::to_string(stop) + std::to_string(allow) + std::to_string(ext));
  Feeder fd(t, s.chance(1, 3) ? genCuts(s, t) : std::vector<size_t>());
  fd.mode = s.boolean() ? 1 : 0;
  fd.upfront = fd.mode == 0 ? fd.parts.size() : 0;
  bool compact = s.boolean();
  Str uc = s.boolean() ? "" : "user context";
  if (c.verbose)
    c.describe("request", fd.show() + fmt(" stop %d allow_missing %d external %d", stop, allow, ext));
  Str out;
  JS::DefaultCallFunctionContext ctx(out);
  if (compact)
    ctx.s_context.serializer.setOptions(JS::SerializerOptions(JS::SerializerOptions::Compact));
  fd.attach(ctx.p_context.tokenizer);
  ctx.stop_execute_on_fail = stop;
  ctx.allow_missing = allow;
  ctx.user_context = uc;
  JS::Error er;
  E ex;
  X xx;
  er = ext ? ctx.callFunctions(xx) : ctx.callFunctions(ex);
  L = nullptr;
  PBT_CHECK(fd.problem.empty(), fd.problem);

  // the model, following the observed outcome only where the parameter may or may not be accepted
  size_t call = 0, canf = 0, i = 0;
  JV reply = JV::arr();
  bool stopped = false, failing = false, special = false;
  JS::Error stop_error = JS::Error::NoError;
  for (; i < es.size() && !stopped; i++)
  {
    if (i >= ctx.execution_list.size())
    {
      PBT_CHECK(cut, "the report has " + std::to_string(ctx.execution_list.size()) + " entries; entry " + std::to_string(i) + " '" + printable(es[i].name) + "' is missing");
      break;
    }
    const JS::CallFunctionExecutionState &st = ctx.execution_list[i];
    const Entry &e = es[i];
    Str where = "entry " + std::to_string(i) + " '" + printable(e.name) + "': ";
    bool last = cut && i + 1 == ctx.execution_list.size(); // may be the one that is truncated
    PBT_CHECK(st.name == ref::escape(e.name), where + "reported under the name '" + printable(st.name) + "'");
    PBT_CHECK(st.context.data == uc, where + "user context");
    bool fail_now = false;
    if (!e.f)
    {
      PBT_CHECK(st.error == JS::Error::MissingFunction, where + "an unknown function is reported as " + errName(st.error));
      fail_now = true;
    }
    else
    {
      Judge j = e.f->judge ? e.f->judge(e.v) : Must;
      bool called = call < log.calls.size() && (st.error == JS::Error::NoError || e.f->can_fail);
      bool planned = false;
      if (called && e.f->can_fail)
        planned = canf < plan.size() && plan[canf];
      // a call is expected if the parameter was accepted
      bool accepted = j == Must;
      if (j == Mustnt)
        accepted = false;
      else if (j != Must)
        accepted = st.error == JS::Error::NoError || (e.f->can_fail && planned && st.error_string.data.find("planned failure " + std::to_string(canf + 1)) != Str::npos);
      if (last && accepted)
        accepted = st.error == JS::Error::NoError || (e.f->can_fail && planned && st.error_string.data.find("planned failure " + std::to_string(canf + 1)) != Str::npos);
      if (accepted)
      {
        PBT_CHECK(call < log.calls.size(), where + "the function is not called (reported " + errName(st.error) + ")");
        const Call &k = log.calls[call++];
        PBT_CHECK(k.id == e.f->id, where + "calls " + k.id);
        if (e.f->gen)
          PBT_CHECK(k.arg && (j != Must || k.arg(e.v)), where + "wrong parameter");
        planned = false;
        if (e.f->can_fail)
        {
          planned = canf < plan.size() && plan[canf];
          canf++;
        }
        if (planned)
        {
          fail_now = true;
          JS::Error want = Str(e.f->id) == "v_ie" ? JS::Error::IllegalDataValue : JS::Error::UserDefinedErrors;
          PBT_CHECK(st.error == want, where + "the error of the function is reported as " + errName(st.error));
          PBT_CHECK(st.error_string.data.find("planned failure " + std::to_string(canf)) != Str::npos, where + "error text " + printable(st.error_string.data));
        }
        else
        {
          PBT_CHECK(st.error == JS::Error::NoError, where + "reported as " + errName(st.error));
          if (e.f->ret != None)
            reply.a.push_back(retOf(e.f->ret, call));
        }
        if (e.f->is_in && j == Must)
        {
          std::vector<Str> missing, un;
          for (auto &m : e.v.o)
            if (m.first != "i" && m.first != "s" && m.first != "v" && m.first != "e")
              missing.push_back(m.first);
          for (auto nm : {"i", "s", "v", "e"})
            if (!e.v.find(nm))
              un.push_back(nm);
          PBT_CHECK(sorted(st.missing_members.data) == sorted(missing), where + "reported unknown members");
          PBT_CHECK(sorted(st.unassigned_required_members.data) == sorted(un), where + "reported unassigned members");
        }
        else if (!e.f->gen || e.v.k != ref::Obj)
          PBT_CHECK(e.v.k == ref::Arr || (st.missing_members.data.empty() && st.unassigned_required_members.data.empty()), where + "members of another entry are reported");
      }
      else
      {
        fail_now = true;
        PBT_CHECK(st.error != JS::Error::NoError, where + "a bad parameter is not reported");
        PBT_CHECK(!st.error_string.data.empty() && st.error_string.data.find("planned failure") == Str::npos, where + "error text " + printable(st.error_string.data));
      }
      if (e.f->special)
        special = true;
    }
    if (fail_now)
    {
      failing = true;
      c.label(e.f ? "failing entry" : "unknown function");
      if (stop && !(st.error == JS::Error::MissingFunction && allow))
      {
        stopped = true;
        stop_error = st.error;
      }
    }
  }
  PBT_CHECK(call == log.calls.size(), "there is one more call than expected: " + (call < log.calls.size() ? log.calls[call].id : Str()));
  PBT_CHECK(i == ctx.execution_list.size(), "the report has " + std::to_string(ctx.execution_list.size()) + " entries instead of " + std::to_string(i));
  if (cut)
  {
    PBT_CHECK(er != JS::Error::NoError, "a truncated request is accepted");
    c.label("truncated");
    return;
  }
  if (stopped)
    PBT_CHECK(er == stop_error, Str("execution stopped at an error, but the result is ") + errName(er));
  else
    PBT_CHECK(er == JS::Error::NoError, Str("the request is refused with ") + errName(er));
  JV got;
  Str err;
  PBT_CHECK(ref::parse(out, got, &err), "the reply is not JSON: " + err + ": " + printable(out));
  PBT_CHECK(ref::equal(got, reply), "the reply is " + printable(out) + " instead of " + ref::text(reply));
  if (es.size() > 1 && (failing || special))
    c.nontrivial = true;
  if (stopped)
    c.label("stopped");
}
} // namespace
void run_case(Src &s, Ctx &c) { go(s, c); }
size_t fixed_count() { return 3; }
void run_fixed(size_t i, Ctx &c)
{
  c.nontrivial = true;
  Log log;
  L = &log;
  Str out;
  E ex;
  if (i == 0)
  {
    log.plan = {true};
    Str t = "{\"v_ve\":null,\"v_i\":[1]}";
    JS::DefaultCallFunctionContext ctx(t.data(), t.size(), out);
    ctx.callFunctions(ex);
    PBT_CHECK(ctx.execution_list.size() == 2 && ctx.execution_list[1].error_string.data.find("planned") == Str::npos, "the message of an earlier entry is reported again");
  }
  if (i == 1)
  {
    Str t = "{\"v_raw\":{\"x\" 1,\"v_v\":null},\"v_v\":null}";
    JS::DefaultCallFunctionContext ctx(t.data(), t.size(), out);
    ctx.callFunctions(ex);
    PBT_CHECK(log.calls.size() <= 1, "a function named inside a malformed parameter is called");
  }
  if (i == 2)
  {
    for (Str t : {"[1,2]", "[]", "\"v_v\"", "[{\"v_v\":null}]"})
    {
      JS::DefaultCallFunctionContext ctx(t.data(), t.size(), out);
      PBT_CHECK(ctx.callFunctions(ex) != JS::Error::NoError && log.calls.empty(), "a request that is not an object is accepted: " + t);
    }
  }
  L = nullptr;
}
