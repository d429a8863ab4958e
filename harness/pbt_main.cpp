// Driver of the engine: generation, isolation, shrinking, replay, statistics.
#include "pbt.h"

using namespace pbt;

#ifdef PBT_LIBFUZZER
// Coverage-guided mode: the fuzzer's bytes are the tape.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
  static bool inited = (prop_init(), true);
  (void)inited;
  Src s;
  s.mode = Src::Bytes;
  s.bytes = data;
  s.nbytes = size;
  s.limit = 20000;
  Ctx c;
  try
  {
    run_case(s, c);
  }
  catch (Fail &f)
  {
    fprintf(stderr, "PBT-FAIL %s\n", f.msg.c_str());
    __builtin_trap();
  }
  return 0;
}
#else

namespace
{
struct Shared
{
  volatile uint64_t current;   // case being run
  volatile uint64_t heartbeat; // incremented per case
  volatile uint32_t failed;    // 1: the property threw
  char msg[4096];
};

struct Stats
{
  uint64_t evals = 0;
  uint64_t nontrivial = 0;
  uint64_t max_choices = 0;
  std::map<std::string, uint64_t> classes;
  std::unordered_set<uint64_t> keys;
  std::vector<std::string> samples;
};

std::string g_out = "/tmp";
uint64_t g_seed = 1;
double g_hang_cpu = 60; // seconds of CPU time for one case before it is a hang

double now()
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

uint64_t case_seed(uint64_t idx)
{
  uint64_t x = g_seed * 0x9e3779b97f4a7c15ull ^ fnv(PROP_ID, strlen(PROP_ID)) ^ (idx * 0xd1342543de82ef95ull);
  splitmix(x);
  return x;
}

void limits()
{
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
}

void quiet_stderr(const std::string &file)
{
  int fd = open(file.empty() ? "/dev/null" : file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0)
  {
    dup2(fd, 2);
    close(fd);
  }
}

// CPU watchdog of one case: ITIMER_PROF counts only CPU time of this process.
void arm(double cpu)
{
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = long(cpu);
  it.it_value.tv_usec = long((cpu - double(long(cpu))) * 1e6);
  setitimer(ITIMER_PROF, &it, nullptr);
}

enum Kind { Pass, Thrown, Crash, Hang };

struct Outcome
{
  Kind kind = Pass;
  std::string msg;
  std::string err; // stderr excerpt (sanitizer report)
  std::vector<uint64_t> used;
  std::string desc;
};

std::string slurp(const std::string &f, size_t max = 6000)
{
  std::ifstream i(f, std::ios::binary);
  std::stringstream s;
  s << i.rdbuf();
  std::string r = s.str();
  if (r.size() > max)
    r.resize(max);
  return r;
}

// Runs one case (tape, bytes, random index or fixed index) alone in a child.
Outcome run_one(const std::vector<uint64_t> *tape, int64_t idx, int64_t fixed_idx, double hang_cpu,
                const std::string *bytes = nullptr)
{
  static Shared *sh = static_cast<Shared *>(
    mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  static Ring *ring =
    static_cast<Ring *>(mmap(nullptr, sizeof(Ring), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  sh->failed = 0;
  ring->n = 0;
  ring->desc_n = 0;
  std::string errf = g_out + "/one." + std::to_string(getpid()) + ".err";
  fflush(stdout);
  pid_t p = fork();
  if (p == 0)
  {
    limits();
    quiet_stderr(errf);
    signal(SIGPROF, SIG_DFL);
    arm(hang_cpu);
    Ctx c;
    c.verbose = true;
    c.ring = ring;
    Src s;
    s.ring = ring;
    int rc = 0;
    try
    {
      if (fixed_idx >= 0)
        run_fixed(size_t(fixed_idx), c);
      else
      {
        if (bytes)
        {
          s.mode = Src::Bytes;
          s.bytes = reinterpret_cast<const uint8_t *>(bytes->data());
          s.nbytes = bytes->size();
          s.limit = 20000;
        }
        else if (tape)
        {
          s.mode = Src::Replay;
          s.tape = *tape;
        }
        else
        {
          s.mode = Src::Random;
          s.rng = case_seed(uint64_t(idx));
        }
        run_case(s, c);
      }
    }
    catch (Fail &f)
    {
      snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
      sh->failed = 1;
      rc = 77;
    }
    catch (std::exception &e)
    {
      snprintf(sh->msg, sizeof sh->msg, "unexpected exception: %s", e.what());
      sh->failed = 1;
      rc = 77;
    }
    _exit(rc);
  }
  int st = 0;
  waitpid(p, &st, 0);
  Outcome o;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    o.kind = Pass;
  else if (sh->failed)
  {
    o.kind = Thrown;
    o.msg = sh->msg;
  }
  else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF)
  {
    o.kind = Hang;
    o.msg = fmt("no result after %.0f s of CPU time", hang_cpu);
  }
  else
  {
    o.kind = Crash;
    o.err = slurp(errf);
    o.msg = WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st)) : fmt("exit status %d", WEXITSTATUS(st));
  }
  o.used.assign(ring->v, ring->v + ring->n);
  o.desc.assign(ring->desc, ring->desc_n);
  unlink(errf.c_str());
  return o;
}

std::vector<uint64_t> shrink(std::vector<uint64_t> best, double budget, Kind kind, uint64_t &trials)
{
  double t0 = now();
  double hang_cpu = kind == Hang ? 5 : g_hang_cpu;
  auto bad = [&](const std::vector<uint64_t> &t, std::vector<uint64_t> &norm) {
    trials++;
    Outcome o = run_one(&t, -1, -1, hang_cpu);
    if (o.kind == Pass || (o.kind != kind && !(o.kind == Crash && kind == Thrown)))
      return false;
    norm = o.used.size() <= t.size() ? o.used : t;
    return true;
  };
  std::vector<uint64_t> norm;
  bool improved = true;
  while (improved && now() - t0 < budget)
  {
    improved = false;
    for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1; len /= 2)
    {
      for (size_t i = 0; i + len <= best.size() && now() - t0 < budget;)
      {
        auto t = best;
        t.erase(t.begin() + long(i), t.begin() + long(i + len));
        if (bad(t, norm) && norm.size() < best.size())
        {
          best = norm;
          improved = true;
        }
        else
          i += len;
      }
      if (len == 1)
        break;
    }
    for (size_t i = 0; i < best.size() && now() - t0 < budget; i++)
    {
      if (!best[i])
        continue;
      auto t = best;
      t[i] = 0;
      if (bad(t, norm) && norm <= best)
      {
        best = norm;
        improved = true;
        continue;
      }
      uint64_t lo = 0, hi = best[i];
      int steps = 0;
      while (lo + 1 < hi && steps++ < 20 && now() - t0 < budget)
      {
        uint64_t mid = lo + (hi - lo) / 2;
        t = best;
        if (i >= t.size())
          break;
        t[i] = mid;
        if (bad(t, norm) && norm.size() <= best.size())
        {
          best = norm;
          hi = mid;
          improved = true;
        }
        else
          lo = mid;
      }
    }
  }
  return best;
}

void write_stats_file(const std::string &f, const Stats &s)
{
  std::ofstream o(f, std::ios::binary);
  o << s.evals << " " << s.nontrivial << " " << s.max_choices << "\n";
  o << s.classes.size() << "\n";
  for (auto &c : s.classes)
    o << c.second << " " << c.first << "\n";
  o << s.keys.size() << "\n";
  for (auto k : s.keys)
    o << k << "\n";
  o << s.samples.size() << "\n";
  for (auto &x : s.samples)
  {
    o << x.size() << "\n";
    o.write(x.data(), long(x.size()));
    o << "\n";
  }
}

void merge_stats_file(const std::string &f, Stats &s)
{
  std::ifstream i(f, std::ios::binary);
  uint64_t e, n, m;
  if (!(i >> e >> n >> m))
    return;
  s.evals += e;
  s.nontrivial += n;
  s.max_choices = std::max(s.max_choices, m);
  size_t k;
  i >> k;
  for (size_t j = 0; j < k; j++)
  {
    uint64_t c;
    std::string name;
    i >> c;
    i.get();
    std::getline(i, name);
    s.classes[name] += c;
  }
  i >> k;
  for (size_t j = 0; j < k; j++)
  {
    uint64_t c;
    i >> c;
    s.keys.insert(c);
  }
  i >> k;
  for (size_t j = 0; j < k; j++)
  {
    size_t l;
    i >> l;
    i.get();
    std::string x(l, 0);
    i.read(&x[0], long(l));
    if (s.samples.size() < 12)
      s.samples.push_back(x);
  }
}

void account(Stats &st, const Ctx &c, const Src &s)
{
  st.evals++;
  st.max_choices = std::max<uint64_t>(st.max_choices, s.used.size());
  for (auto &x : c.classes)
    st.classes[x.first] += x.second;
  if (c.nontrivial)
  {
    st.nontrivial++;
    st.keys.insert(c.key);
  }
}

// Worker: runs cases idx = first, first+step, ... until `last` or the time is up.
// Exit status 0: all passed; otherwise sh->current names the failing case.
[[noreturn]] void worker(uint64_t first, uint64_t step, uint64_t last, double deadline, Shared *sh,
                         const std::string &statf, const std::string &errf, uint64_t want_samples)
{
  limits();
  quiet_stderr(errf);
  signal(SIGPROF, SIG_DFL);
  Stats st;
  int rc = 0;
  for (uint64_t i = first; i < last; i += step)
  {
    sh->current = i;
    sh->heartbeat = sh->heartbeat + 1;
    arm(g_hang_cpu);
    Ctx c;
    c.verbose = st.samples.size() < want_samples;
    Src s;
    s.mode = Src::Random;
    s.rng = case_seed(i);
    try
    {
      run_case(s, c);
    }
    catch (Fail &f)
    {
      snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
      sh->failed = 1;
      rc = 77;
    }
    catch (std::exception &e)
    {
      snprintf(sh->msg, sizeof sh->msg, "unexpected exception: %s", e.what());
      sh->failed = 1;
      rc = 77;
    }
    if (rc)
      break;
    account(st, c, s);
    if (c.nontrivial && st.samples.size() < want_samples)
      st.samples.push_back(c.desc.substr(0, 1500));
    if (now() > deadline)
      break;
  }
  arm(0);
  write_stats_file(statf, st);
  _exit(rc);
}

std::string kind_name(Kind k)
{
  return k == Pass ? "pass" : k == Thrown ? "oracle mismatch" : k == Crash ? "crash" : "hang";
}

std::string err_excerpt(const std::string &e)
{
  std::stringstream in(e), out;
  std::string l;
  int n = 0;
  while (std::getline(in, l) && n < 30)
  {
    if (l.find("ERROR") != std::string::npos || l.find("runtime error") != std::string::npos ||
        l.find("Assertion") != std::string::npos || l.find("    #") != std::string::npos ||
        l.find("terminate") != std::string::npos || l.find("what()") != std::string::npos)
    {
      out << "  " << l << "\n";
      n++;
    }
  }
  return out.str();
}

} // namespace

int main(int argc, char **argv)
{
  uint64_t cases = 20000;
  double seconds = 60;
  unsigned jobs = 8;
  std::string replay, stats = "", replays = ".";
  bool fuzz_raw = false;
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    auto val = [&]() { return std::string(++i < argc ? argv[i] : ""); };
    if (a == "--cases")
      cases = strtoull(val().c_str(), 0, 10);
    else if (a == "--seconds")
      seconds = atof(val().c_str());
    else if (a == "--jobs")
      jobs = unsigned(atoi(val().c_str()));
    else if (a == "--seed")
      g_seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--replay")
      replay = val();
    else if (a == "--fuzz-artifact") // a libFuzzer input: convert to a tape and judge it
    {
      replay = val();
      fuzz_raw = true;
    }
    else if (a == "--stats")
      stats = val();
    else if (a == "--scratch")
      g_out = val();
    else if (a == "--replays")
      replays = val();
    else if (a == "--hang-cpu")
      g_hang_cpu = atof(val().c_str());
  }
  prop_init();
  double t0 = now();

  auto report = [&](const Outcome &o, const std::vector<uint64_t> *tape, int64_t fixed, uint64_t trials) {
    std::stringstream body;
    body << "pbt-replay 1\nproperty " << PROP_ID << "\nseed " << g_seed << "\n";
    if (fixed >= 0)
      body << "fixed " << fixed << "\n";
    else
    {
      body << "tape";
      for (auto v : *tape)
        body << " " << v;
      body << "\n";
    }
    body << "kind " << kind_name(o.kind) << "\nshrink-trials " << trials << "\n";
    body << "message " << printable(o.msg, 3000) << "\n";
    body << "case:\n" << o.desc << "\n" << err_excerpt(o.err);
    std::string s = body.str();
    std::string f = replays + "/" + PROP_ID + "-" + fmt("%016" PRIx64, fnv(s.data(), s.size())) + ".replay";
    std::ofstream(f, std::ios::binary) << s;
    printf("FAILURE kind=%s\n%s\n", kind_name(o.kind).c_str(), s.c_str());
    printf("VIOLATION property=%s replay=%s\n", PROP_ID, f.c_str());
    fflush(stdout);
  };

  if (!replay.empty())
  {
    std::vector<uint64_t> tape;
    int64_t fixed = -1;
    if (fuzz_raw)
    {
      std::string d = slurp(replay, 1 << 24);
      tape = run_one(nullptr, -1, -1, g_hang_cpu, &d).used;
    }
    else
    {
      std::ifstream i(replay);
      std::string l;
      while (std::getline(i, l))
      {
        if (l.compare(0, 5, "tape ") == 0)
        {
          std::stringstream s(l.substr(5));
          uint64_t v;
          while (s >> v)
            tape.push_back(v);
        }
        else if (l.compare(0, 6, "fixed ") == 0)
          fixed = atol(l.c_str() + 6);
        else if (l == "case:")
          break;
      }
    }
    int bad = 0;
    Outcome o;
    for (int k = 0; k < 3; k++)
    {
      o = run_one(&tape, -1, fixed, g_hang_cpu);
      if (o.kind == Pass)
        break;
      bad++;
    }
    if (bad == 3)
    {
      uint64_t trials = 0;
      if (fuzz_raw)
      {
        tape = shrink(tape, 60, o.kind, trials);
        o = run_one(&tape, -1, -1, g_hang_cpu);
        if (o.kind == Pass)
          return 0;
        report(o, &tape, -1, trials);
      }
      else
      {
        printf("reproduced: %s: %s\n%s\n%s\n", kind_name(o.kind).c_str(), o.msg.c_str(), o.desc.c_str(),
               err_excerpt(o.err).c_str());
        printf("VIOLATION property=%s replay=%s\n", PROP_ID, replay.c_str());
      }
      return 1;
    }
    printf("not reproduced\n%s\n", o.desc.c_str());
    return 0;
  }

  Stats total;
  uint64_t unreproduced = 0;
  bool violation = false;
  size_t nfixed = fixed_count();
  uint64_t fixed_run = 0;

  // 1. explicit cases
  {
    Shared *sh = static_cast<Shared *>(
      mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    size_t start = 0;
    while (start < nfixed && !violation)
    {
      sh->failed = 0;
      sh->current = start;
      std::string statf = g_out + "/fixed.stat";
      unlink(statf.c_str());
      fflush(stdout);
      pid_t p = fork();
      if (p == 0)
      {
        limits();
        quiet_stderr("");
        Stats st;
        int rc = 0;
        for (size_t i = start; i < nfixed; i++)
        {
          sh->current = i;
          arm(g_hang_cpu);
          Ctx c;
          c.verbose = false;
          try
          {
            run_fixed(i, c);
          }
          catch (...)
          {
            rc = 77;
            break;
          }
          c.nontrivial = true;
          c.identity("fixed" + std::to_string(i));
          account(st, c, Src());
        }
        write_stats_file(statf, st);
        _exit(rc);
      }
      int st;
      waitpid(p, &st, 0);
      merge_stats_file(statf, total);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
      {
        fixed_run = nfixed;
        break;
      }
      size_t at = size_t(sh->current);
      Outcome o;
      int bad = 0;
      for (int k = 0; k < 3; k++)
      {
        o = run_one(nullptr, -1, int64_t(at), g_hang_cpu);
        if (o.kind == Pass)
          break;
        bad++;
      }
      if (bad == 3)
      {
        violation = true;
        report(o, nullptr, int64_t(at), 0);
      }
      else
        unreproduced++;
      fixed_run = at + 1;
      start = at + 1;
    }
  }

  // 2. generated cases
  struct W
  {
    pid_t pid = 0;
    uint64_t next = 0;
    Shared *sh = nullptr;
    std::string statf, errf;
  };
  std::vector<W> ws(jobs);
  double deadline = t0 + seconds;
  auto start = [&](unsigned k) {
    W &w = ws[k];
    w.sh->failed = 0;
    w.sh->current = w.next;
    unlink(w.statf.c_str());
    fflush(stdout);
    w.pid = fork();
    if (w.pid == 0)
      worker(w.next, jobs, cases, deadline, w.sh, w.statf, w.errf, k < 4 ? 3 : 0);
  };
  if (!violation)
  {
    for (unsigned k = 0; k < jobs; k++)
    {
      W &w = ws[k];
      w.sh = static_cast<Shared *>(
        mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
      w.statf = g_out + "/w" + std::to_string(k) + ".stat";
      w.errf = g_out + "/w" + std::to_string(k) + ".err";
      w.next = k;
      start(k);
    }
    unsigned alive = jobs;
    while (alive)
    {
      int st;
      pid_t p = wait(&st);
      if (p < 0)
        break;
      unsigned k = 0;
      while (k < jobs && ws[k].pid != p)
        k++;
      if (k == jobs)
        continue;
      W &w = ws[k];
      w.pid = 0;
      merge_stats_file(w.statf, total);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
      {
        alive--;
        continue;
      }
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
      {
        // killed from outside (for example out of memory): not a verdict about the case
        unreproduced++;
        alive--;
        continue;
      }
      uint64_t at = w.sh->current;
      // stop the others: one failure is enough
      for (auto &x : ws)
        if (x.pid)
          kill(x.pid, SIGSTOP);
      Outcome first = run_one(nullptr, int64_t(at), -1, g_hang_cpu);
      int bad = first.kind != Pass;
      for (int j = 0; j < 2 && bad; j++)
      {
        Outcome o = run_one(nullptr, int64_t(at), -1, g_hang_cpu);
        if (o.kind == Pass)
          bad = 0;
      }
      if (bad)
      {
        std::vector<uint64_t> tape = first.used;
        Outcome chk = run_one(&tape, -1, -1, g_hang_cpu);
        uint64_t trials = 0;
        std::vector<uint64_t> best = tape;
        if (chk.kind != Pass)
        {
          best = shrink(tape, 45, chk.kind, trials);
          for (int j = 0; j < 3; j++)
          {
            Outcome o = run_one(&best, -1, -1, g_hang_cpu);
            if (o.kind == Pass)
            {
              best = tape;
              break;
            }
            chk = o;
          }
        }
        else
          chk = first;
        for (auto &x : ws)
          if (x.pid)
            kill(x.pid, SIGKILL);
        for (auto &x : ws)
          if (x.pid)
            waitpid(x.pid, &st, 0);
        violation = true;
        report(chk, &best, -1, trials);
        break;
      }
      unreproduced++;
      for (auto &x : ws)
        if (x.pid)
          kill(x.pid, SIGCONT);
      w.next = at + jobs;
      if (w.next < cases && now() < deadline)
        start(k);
      else
        alive--;
    }
  }

  for (auto &k : knownFindings(PROP_ID))
    if (total.classes.count("known-finding:" + k.first))
      printf("KNOWN-FINDING: property=%s %s: %s\n", PROP_ID, k.first.c_str(), k.second.c_str());
  if (!stats.empty())
  {
    std::ofstream o(stats);
    o << "{\"evaluations\":" << total.evals << ",\"nontrivial\":" << total.nontrivial
      << ",\"distinct_nontrivial\":" << total.keys.size() << ",\"fixed_cases\":" << fixed_run
      << ",\"max_choices\":" << total.max_choices << ",\"unreproduced\":" << unreproduced
      << ",\"violations\":" << (violation ? 1 : 0) << ",\"requested_cases\":" << cases << ",\"rule\":" << jsonstr(PROP_RULE)
      << ",\"classes\":{";
    bool f = true;
    for (auto &c : total.classes)
    {
      if (!f)
        o << ",";
      f = false;
      o << jsonstr(c.first) << ":" << c.second;
    }
    o << "},\"samples\":[";
    f = true;
    for (auto &s : total.samples)
    {
      if (!f)
        o << ",";
      f = false;
      o << jsonstr(s);
    }
    o << "]}\n";
  }
  printf("%s: %" PRIu64 " cases (%" PRIu64 " explicit), %" PRIu64 " non-trivial, %zu distinct non-trivial, %.1f s%s\n",
         PROP_ID, total.evals, fixed_run, total.nontrivial, total.keys.size(), now() - t0,
         unreproduced ? fmt(", %" PRIu64 " not reproduced", unreproduced).c_str() : "");
  return violation ? 1 : 0;
}
#endif
