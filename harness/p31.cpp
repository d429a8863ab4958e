#include "typed.h"
#include "bind.h"
#include "feed.h"
#include <json_struct/json_struct_diff.h>
#include <thread>
#include <atomic>
using namespace pbt;
using namespace glue;
typedef ref::JV JV;
const char *const PROP_ID = "P31";
const char *const PROP_RULE =
  "Cases are 2 to 6 jobs (reading tokens, parsing into and writing a struct with every type handler, binding with error text, writing "
  "through small buffers, numbers and strings, dynamic-map edits, called functions, reformatting, differences, token counts, user-defined "
  "type handlers), most valid, some damaged, run by 1 to 4 threads at once; in each thread the jobs follow one another, repeat, or start in "
  "the middle of others: from the need-more-data, release and request-buffer callbacks, from user-defined type handlers, from called functions "
  "and between any two calls on an object; a job may change threads between two calls; the threads also write, cast and count from one "
  "shared const object. Oracle: each job alone in a thread of its own gives the same outcome (values, output, errors, error text); the "
  "thread sanitizer sees no unsynchronised access. Non-trivial: at least two jobs overlapped, in one thread or in several.";
void prop_init() {}

// ---------------------------------------------------------------- who runs what, when
struct Job
{
  int kind = 0;
  unsigned bits = 0;
  std::string text, text2;
  std::vector<size_t> cuts;
  size_t buf = 7;
  std::shared_ptr<ty::U> value;
  std::vector<double> doubles;
  std::vector<std::string> strings;
};
struct Shared
{
  ty::U value;
  std::string doc;
  JS::Map map;
  JS::JsonTokens tokens;
};
struct Env
{
  const std::vector<Job> *jobs = nullptr;
  const Shared *shared = nullptr;
  std::vector<size_t> plan;
  size_t at = 0, gap = 1, calls = 0, hop = 0, steps = 0;
  int depth = 0;
  size_t nested = 0;
  std::vector<std::pair<size_t, std::string>> results;
};
static thread_local Env *env = nullptr;
static std::string run(const Job &j);
static void runNext(Env *e)
{
  size_t k = e->plan[e->at++];
  std::string r;
  e->depth++;
  try
  {
    r = run((*e->jobs)[k]);
  }
  catch (Fail &f)
  {
    r = "failed: " + f.msg;
  }
  e->depth--;
  e->results.emplace_back(k, r);
}
// a point at which another job may start
static void between()
{
  Env *e = env;
  if (!e || e->at >= e->plan.size() || e->depth >= 4)
    return;
  if (++e->calls % e->gap)
    return;
  e->nested++;
  runNext(e);
}
// one call on an object of a job, at times in another thread
template <typename F>
static void step(F f)
{
  Env *e = env;
  if (e && e->hop && ++e->steps % e->hop == 0)
  {
    std::string bad;
    std::thread([&] {
      env = e;
      try
      {
        f();
      }
      catch (Fail &x)
      {
        bad = x.msg;
      }
      env = nullptr;
    }).join();
    if (!bad.empty())
      fail(bad);
  }
  else
    f();
  between();
}

// ---------------------------------------------------------------- user-defined types of the jobs
struct Probe
{
  std::string v;
};
namespace JS
{
template <>
struct TypeHandler<Probe>
{
  static inline Error to(Probe &to_type, ParseContext &context)
  {
    Error e = TypeHandler<std::string>::to(to_type.v, context);
    between();
    return e;
  }
  static inline void from(const Probe &from_type, Token &token, Serializer &serializer)
  {
    between();
    TypeHandler<std::string>::from(from_type.v, token, serializer);
    between();
  }
};
} // namespace JS
struct In
{
  int i = 0;
  Probe p;
  std::vector<Probe> list;
  std::map<std::string, Probe> map;
  JS::Optional<double> d;
  JS_OBJ(i, p, list, map, d);
};
struct Out
{
  Probe before;
  std::vector<In> ins;
  std::unique_ptr<In> one;
  std::string after;
  JS_OBJ(before, ins, one, after);
};
struct Fns
{
  std::string log;
  int add(const std::vector<int> &v)
  {
    int n = 0;
    for (int x : v)
      n = int(unsigned(n) + unsigned(x));
    log += "add;";
    between();
    return n;
  }
  std::string twice(const std::string &s)
  {
    between();
    log += "twice " + s + ";";
    return s + s;
  }
  In in(const In &i)
  {
    log += "in;";
    between();
    In r;
    r.i = i.i + (i.i < 1000);
    r.p = i.p;
    r.list = i.list;
    return r;
  }
  void odd(const int &i, JS::CallFunctionErrorContext &c)
  {
    between();
    if (i % 2 == 0)
      c.setError(JS::Error::UserDefinedErrors, "even " + std::to_string(i));
  }
  double half(const double &d) { return d / 2; }
  JS_FUNC_OBJ(add, twice, in, odd, half);
};

// ---------------------------------------------------------------- the jobs
static std::string err(JS::Error e)
{
  return "E" + std::to_string(int(e)) + ";";
}
static JS::SerializerOptions options(unsigned bits)
{
  JS::SerializerOptions o(bits & 1 ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty);
  if (bits & 2)
    o.setShiftSize((unsigned char)(bits >> 8 & 7));
  return o;
}
static void feed(Feeder &f, JS::Tokenizer &t)
{
  f.mode = 1;
  f.upfront = 0;
  t.setReleaseCallback(f.rel = [&f](const char *p) {
    if (f.released >= f.added || f.held[f.released].get() != p)
      f.problem = "release callback out of order";
    else
      f.held[f.released++].reset();
    between();
  });
  t.setNeedMoreDataCallback([&f](JS::Tokenizer &x) {
    between();
    f.add(x);
    between();
  });
}
template <typename T>
static std::string write(const T &v, const Job &j)
{
  std::string out, done;
  std::vector<std::unique_ptr<char[]>> bufs;
  std::unique_ptr<JS::Serializer> s;
  char *cur = nullptr;
  step([&] {
    s.reset(new JS::Serializer());
    s->setOptions(options(j.bits));
    s->setRequestBufferCallback([&](JS::Serializer &x) {
      if (cur)
        done.append(cur, j.buf);
      bufs.emplace_back(new char[j.buf]);
      cur = bufs.back().get();
      between();
      x.setBuffer(cur, j.buf);
      between();
    });
  });
  step([&] {
    JS::Token t;
    JS::TypeHandler<T>::from(v, t, *s);
  });
  if (cur)
    done.append(cur, s->currentBuffer().used);
  return done;
}
template <typename T>
static std::string parse(const Job &j, T &to, bool lists)
{
  Feeder f(j.text, j.cuts);
  std::unique_ptr<JS::ParseContext> pc;
  JS::Error e = JS::Error::NoError;
  step([&] {
    pc.reset(new JS::ParseContext());
    pc->allow_missing_members = !(j.bits & 16);
    pc->allow_unasigned_required_members = !(j.bits & 32);
    pc->track_member_assignement_state = !(j.bits & 64) || (j.bits & 48);
    if (j.bits & 128)
      feed(f, pc->tokenizer);
    else
    {
      f.mode = 0;
      f.upfront = f.parts.size();
      f.attach(pc->tokenizer);
    }
  });
  step([&] { e = pc->parseTo(to); });
  std::string r = err(e) + f.problem;
  if (lists)
  {
    for (auto &m : pc->missing_members)
      r += "?" + m;
    for (auto &m : pc->unassigned_required_members)
      r += "!" + m;
  }
  step([&] { r += e == JS::Error::NoError ? "" : pc->makeErrorString(); });
  return r;
}
struct Nums
{
  double d = 0;
  float f = 0;
  int64_t i = 0;
  uint64_t u = 0;
  std::vector<double> v;
  std::string s;
  JS_OBJ(d, f, i, u, v, s);
};
static std::string run(const Job &j)
{
  std::string r;
  switch (j.kind)
  {
  case 0: // tokens
  {
    Feeder f(j.text, j.cuts);
    std::unique_ptr<JS::Tokenizer> tk;
    step([&] {
      tk.reset(new JS::Tokenizer());
      Opts::from(j.bits).apply(*tk);
      feed(f, *tk);
    });
    JS::Token t;
    for (size_t i = 0; i <= j.text.size() + 1; i++)
    {
      JS::Error e;
      step([&] { e = tk->nextToken(t); });
      if (e != JS::Error::NoError)
      {
        r += err(e);
        step([&] { r += tk->makeErrorString(); });
        break;
      }
      r += conv(t).show() + " ";
    }
    return r + f.problem;
  }
  case 1: // every type handler
  {
    ty::U u;
    r = parse(j, u, true);
    return r + write(u, j);
  }
  case 2: // writing
    step([&] { r = JS::serializeStruct(*j.value, options(j.bits)); });
    return r + "\n" + write(*j.value, j);
  case 3: // binding
  {
    bind::T t;
    r = parse(j, t, true);
    return r + ref::text(bind::dump(t));
  }
  case 4: // numbers and strings
  {
    Nums n;
    r = parse(j, n, true);
    r += fmt("%a %a %" PRId64 " %" PRIu64, n.d, double(n.f), n.i, n.u);
    for (double d : j.doubles)
    {
      n.v.push_back(d);
      n.d = d;
      n.f = float(d);
      step([&] { r += JS::serializeStruct(n, options(j.bits)); });
    }
    for (auto &s : j.strings)
    {
      n.s = s;
      step([&] { r += JS::serializeStruct(n, options(j.bits)); });
    }
    return r;
  }
  case 5: // the dynamic map
  {
    JS::Map m;
    std::unique_ptr<JS::ParseContext> pc(new JS::ParseContext(j.text.data(), j.text.size()));
    step([&] { r += err(pc->parseTo(m)); });
    if (pc->error != JS::Error::NoError)
      return r + pc->makeErrorString();
    for (size_t i = 0; i < j.strings.size(); i++)
    {
      step([&] {
        JS::ParseContext c;
        if (i < j.doubles.size())
          r += err(m.setValue(j.strings[i], c, j.doubles[i]));
        else
        {
          In in;
          in.i = int(i);
          in.p.v = j.strings[i];
          r += err(m.setValue(j.strings[i], c, in));
        }
      });
      step([&] {
        JS::ParseContext c;
        JS::JsonTokens t;
        r += err(m.castToType(j.strings[i / 2], c, t));
        r += std::to_string(t.data.size());
      });
    }
    size_t n = 0;
    for (auto it = m.begin(); it != m.end(); ++it)
      n++;
    step([&] { r += std::to_string(n) + JS::serializeStruct(m, options(j.bits)); });
    return r;
  }
  case 6: // called functions
  {
    std::string out;
    Fns fns;
    Feeder f(j.text, j.cuts);
    std::unique_ptr<JS::DefaultCallFunctionContext> c;
    step([&] {
      c.reset(new JS::DefaultCallFunctionContext(out));
      c->s_context.serializer.setOptions(options(j.bits));
      c->allow_missing = j.bits & 16;
      c->stop_execute_on_fail = j.bits & 32;
      feed(f, c->p_context.tokenizer);
    });
    step([&] { r += err(c->callFunctions(fns)); });
    for (auto &x : c->execution_list)
      r += x.name + err(x.error) + x.error_string.data;
    c.reset();
    return r + fns.log + out + f.problem;
  }
  case 7: // other layout
  {
    std::string a, b;
    step([&] { r += err(JS::reformat(j.text, a, options(j.bits))); });
    step([&] { r += err(JS::reformat(a, b, options(j.bits ^ 1u))); });
    return r + a + "\n" + b;
  }
  case 8: // differences
  {
    JS::DiffOptions o;
    std::unique_ptr<JS::DiffContext> d;
    step([&] { d.reset(new JS::DiffContext(j.text, o)); });
    step([&] { r += std::to_string(d->diff(j.text2)) + ";"; });
    step([&] { r += std::to_string(d->diff(j.text)) + ";"; });
    if (d->diffs.size() > 1 && j.bits & 1)
      step([&] { d->changeBase(d->diffs.size() - 1); });
    for (auto &x : d->diffs)
    {
      for (auto t : x.diffs)
        r += char('0' + int(t));
      r += fmt("|%d %zu;", int(x.error), size_t(x.missingMembers.size() + x.missingArrayItems.size()));
    }
    return r + std::to_string(int(d->error));
  }
  case 9: // recorded tokens and their counts
  {
    JS::JsonTokens t;
    std::unique_ptr<JS::ParseContext> pc(new JS::ParseContext(j.text.data(), j.text.size()));
    step([&] { r += err(pc->parseTo(t)); });
    if (pc->error != JS::Error::NoError)
      return r + pc->makeErrorString();
    step([&] {
      for (auto &m : JS::metaForTokens(t))
        r += fmt("%d %d %d %d %d;", int(m.position), int(m.size), int(m.children), int(m.complex_children), int(m.skip));
    });
    step([&] { r += JS::serializeStruct(t, options(j.bits)); });
    return r;
  }
  case 10: // user-defined type handlers
  {
    Out o;
    r = parse(j, o, true);
    r += write(o, j);
    step([&] { r += JS::serializeStruct(o, options(j.bits)); });
    return r;
  }
  default: // reading from objects that other threads read too
  {
    const Shared &s = *env->shared;
    step([&] { r = JS::serializeStruct(s.value, options(j.bits)); });
    r += write(s.value, j);
    step([&] {
      JS::ParseContext c;
      ty::U u;
      r += err(s.map.castToType(c, u)) + JS::serializeStruct(u, options(j.bits));
    });
    step([&] {
      JS::ParseContext c;
      std::string x;
      r += err(s.map.castToType(std::string("s"), c, x)) + x;
      auto it = s.map.find("vs");
      std::vector<std::string> y;
      r += it == s.map.end() ? std::string("none") : err(s.map.castToType(it, c, y)) + std::to_string(y.size());
    });
    step([&] { r += std::to_string(JS::metaForTokens(s.tokens).size()) + JS::serializeStruct(s.tokens, options(j.bits)); });
    step([&] {
      JS::ParseContext c;
      c.tokenizer.addData(&s.tokens.data);
      ty::U u;
      r += err(c.parseTo(u)) + std::to_string(ty::changed(u, s.value));
    });
    return r;
  }
  }
}

// ---------------------------------------------------------------- generation
static std::string keyOf(Src &s)
{
  static const char *const odd[] = {"a\"b", "\n", "\\", "tab\there", "\x01\x02", "\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"", "a longer key, \"quoted\""};
  switch (s.draw(3))
  {
  case 0: return std::string(1, char('a' + s.draw(6)));
  case 1: return s.pick(odd);
  default: return ref::genString(s, 12);
  }
}
static JV genIn(Src &s)
{
  JV v = JV::obj();
  if (!s.chance(1, 6))
    v.o.emplace_back("i", JV::num(s.range(-3000, 3000)));
  v.o.emplace_back("p", JV::str(ref::genString(s, 20)));
  JV l = JV::arr();
  for (size_t n = s.draw(4); n--;)
    l.a.push_back(JV::str(ref::genString(s, 8)));
  v.o.emplace_back("list", l);
  JV m = JV::obj();
  for (size_t n = s.draw(4); n--;)
  {
    std::string k = keyOf(s);
    if (!m.find(k))
      m.o.emplace_back(k, JV::str(ref::genString(s, 8)));
  }
  v.o.emplace_back("map", m);
  if (s.boolean())
  {
    JV d;
    d.k = ref::Num;
    d.s = ref::genNumber(s);
    v.o.emplace_back("d", d);
  }
  return v;
}
static JV numv(Src &s)
{
  JV d;
  d.k = ref::Num;
  d.s = ref::genNumber(s);
  return d;
}
static Job genJob(Src &s, int kind)
{
  Job j;
  j.kind = kind;
  j.bits = unsigned(s.draw(1u << 12));
  j.buf = 1 + s.draw(s.boolean() ? 20 : 200);
  ref::GenOpt g;
  g.depth = int(1 + s.draw(4));
  JV v;
  switch (j.kind)
  {
  case 1:
  case 2:
    j.value = std::make_shared<ty::U>();
    ty::genSome(s, *j.value);
    v = ty::G<ty::U>::jv(*j.value);
    break;
  case 3: v = bind::genT(s); break;
  case 4:
  {
    v = JV::obj();
    v.o.emplace_back("d", numv(s));
    v.o.emplace_back("f", numv(s));
    v.o.emplace_back("i", JV::num(s.range(-1000000000000, 1000000000000)));
    v.o.emplace_back("u", JV::num(s.range(0, 1000000000000)));
    JV a = JV::arr();
    for (size_t n = s.draw(5); n--;)
      a.a.push_back(numv(s));
    v.o.emplace_back("v", a);
    v.o.emplace_back("s", JV::str(ref::genString(s, 40)));
    break;
  }
  case 6:
  {
    v = JV::obj();
    for (size_t n = 1 + s.draw(5); n--;)
      switch (s.draw(7))
      {
      case 0:
      {
        JV a = JV::arr();
        for (size_t k = s.draw(4); k--;)
          a.a.push_back(JV::num(s.range(-100, 100)));
        v.o.emplace_back("add", a);
        break;
      }
      case 1: v.o.emplace_back("twice", JV::str(ref::genString(s, 20))); break;
      case 2: v.o.emplace_back("in", genIn(s)); break;
      case 3: v.o.emplace_back("odd", JV::num(s.range(0, 9))); break;
      case 4: v.o.emplace_back("half", numv(s)); break;
      case 5: v.o.emplace_back("twice", JV::num(s.range(0, 9))); break;
      default: v.o.emplace_back("none", genIn(s)); break;
      }
    break;
  }
  case 10:
  {
    v = JV::obj();
    v.o.emplace_back("before", JV::str(ref::genString(s, 20)));
    JV a = JV::arr();
    for (size_t n = s.draw(4); n--;)
      a.a.push_back(genIn(s));
    v.o.emplace_back("ins", a);
    v.o.emplace_back("one", s.boolean() ? genIn(s) : JV());
    v.o.emplace_back("after", JV::str(ref::genString(s, 20)));
    break;
  }
  default:
    v = ref::genDoc(s, g);
    if (j.kind == 8)
    {
      JV w = ref::genDoc(s, g);
      j.text2 = s.boolean() ? ref::text(s, v) : ref::text(s, w);
    }
  }
  j.text = ref::text(s, v, false);
  if (j.kind != 8 && s.chance(1, 5))
    j.text = ref::mutate(s, j.text);
  if (s.boolean())
    j.cuts = genCuts(s, j.text);
  if (j.kind == 4 || j.kind == 5)
  {
    for (size_t n = s.draw(4); n--;)
    {
      double d;
      ty::gen(s, d);
      j.doubles.push_back(d);
    }
    for (size_t n = s.draw(5); n--;)
      j.strings.push_back(keyOf(s));
  }
  return j;
}
static const char *const NAMES[] = {"tokens", "parse", "write", "bind", "numbers", "map", "functions", "reformat", "diff", "counts", "user types", "shared"};

void run_case(Src &s, Ctx &c)
{
  std::vector<Job> jobs;
  const bool withShared = s.chance(1, 4);
  // often few kinds, so that they meet in the same code
  std::vector<int> kinds;
  for (size_t n = s.boolean() ? 1 + s.draw(2) : 11; n--;)
    kinds.push_back(int(s.draw(11)));
  for (size_t n = 2 + s.draw(4); n--;)
    jobs.push_back(genJob(s, s.pick(kinds)));
  Shared sh;
  if (withShared)
  {
    ty::genSome(s, sh.value);
    sh.doc = ref::text(s, ty::G<ty::U>::jv(sh.value), false);
    for (size_t n = 1 + s.draw(2); n--;)
    {
      jobs.emplace_back();
      jobs.back().kind = 11;
      jobs.back().bits = unsigned(s.draw(1u << 12));
      jobs.back().buf = 1 + s.draw(200);
    }
    JS::ParseContext a(sh.doc), b(sh.doc);
    PBT_CHECK(a.parseTo(sh.map) == JS::Error::NoError && b.parseTo(sh.tokens) == JS::Error::NoError, "shared document refused");
  }
  const size_t T = 1 + s.draw(4);
  std::vector<Env> envs(T);
  for (auto &e : envs)
  {
    e.jobs = &jobs;
    e.shared = &sh;
    e.gap = s.chance(1, 4) ? SIZE_MAX : 1 + s.draw(s.boolean() ? 6 : 60);
    e.hop = s.chance(1, 5) ? 1 + s.draw(5) : 0;
    for (size_t n = 2 + s.draw(6); n--;)
      e.plan.push_back(s.draw(jobs.size()));
  }
  for (size_t i = 0; i < jobs.size(); i++)
  {
    c.identity(fmt("%d %u ", jobs[i].kind, jobs[i].bits) + jobs[i].text + jobs[i].text2);
    c.label(NAMES[jobs[i].kind]);
    if (c.verbose)
      c.describe(fmt("job %zu", i).c_str(), fmt("%s, bits %u, buffers of %zu, %zu cuts: ", NAMES[jobs[i].kind], jobs[i].bits, jobs[i].buf, jobs[i].cuts.size()) +
                                      printable(jobs[i].text.substr(0, 400)));
  }
  if (c.verbose)
    for (size_t k = 0; k < T; k++)
    {
      std::string p;
      for (size_t x : envs[k].plan)
        p += std::to_string(x) + " ";
      c.describe(fmt("thread %zu", k).c_str(), fmt("gap %zd, other thread every %zu steps, jobs ", ssize_t(envs[k].gap), envs[k].hop) + p);
    }
  // all at once, first of all, so that whatever is set up on first use is set up by several threads
  {
    std::vector<std::thread> ts;
    std::atomic<size_t> ready{0};
    for (auto &e : envs)
      ts.emplace_back([&ready, &e, T] {
        env = &e;
        // start together (relaxed: the order of the threads is not to be fixed by this)
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < T)
          std::this_thread::yield();
        while (e.at < e.plan.size())
          runNext(&e);
        env = nullptr;
      });
    for (auto &t : ts)
      t.join();
  }
  // each alone
  std::vector<std::string> want(jobs.size());
  for (size_t i = 0; i < jobs.size(); i++)
    std::thread([&, i] {
      Env e;
      e.jobs = &jobs;
      e.shared = &sh;
      e.plan.push_back(i);
      env = &e;
      runNext(&e);
      env = nullptr;
      want[i] = e.results[0].second;
    }).join();
  size_t nested = 0;
  for (size_t k = 0; k < T; k++)
  {
    nested += envs[k].nested;
    PBT_CHECK(envs[k].results.size() == envs[k].plan.size(), "HARNESS: jobs left");
    for (auto &r : envs[k].results)
      PBT_CHECK(r.second == want[r.first], fmt("job %zu (%s) in thread %zu of %zu gives ", r.first, NAMES[jobs[r.first].kind], k, T) + printable(r.second.substr(0, 600)) +
                                             " and alone " + printable(want[r.first].substr(0, 600)));
  }
  c.nontrivial = T > 1 || nested;
  c.label(fmt("threads %zu", T));
  if (nested)
    c.label("nested");
}
size_t fixed_count() { return 0; }
void run_fixed(size_t, Ctx &) {}
