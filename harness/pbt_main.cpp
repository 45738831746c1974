#include "pbt.h"
#include <algorithm>
#include <tuple>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <dirent.h>

namespace pbt
{
std::vector<Sub>& registry()
{
  static std::vector<Sub> r;
  return r;
}
static std::string g_scratch;
const std::string& scratch() { return g_scratch; }
// notes of a child are mirrored into shared memory so that they survive a crash of the child
static char* g_mirror = nullptr;
static const std::size_t kMirror = 16384;
void mirror(const std::string& s, std::size_t from)
{
  if (!g_mirror)
    return;
  for (std::size_t k = from; k < s.size() && k + 1 < kMirror; ++k)
    g_mirror[k] = s[k];
}
}  // namespace pbt
using namespace pbt;

static double now()
{
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

static const int kCpuLimit = 40;  // CPU seconds for one case; normal cases take microseconds to a second

static void arm(int sec)
{
  itimerval t{};
  t.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &t, nullptr);
}

static uint64_t hashStr(const std::string& s)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char ch : s)
    h = (h ^ ch) * 1099511628211ull;
  return h;
}
static uint64_t hashTape(uint64_t h, const std::vector<uint64_t>& t)
{
  h ^= 0x1234567;
  for (uint64_t v : t)
  {
    h = (h ^ v) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
  }
  return h;
}

enum Outcome
{
  PASS = 0,
  FAILED = 1,
  DISCARDED = 2,
  CRASH = 3
};

static Outcome runOne(const Sub& s, Case& c, std::string& msg)
{
  try
  {
    s.body(c);
    return PASS;
  }
  catch (const Fail& f)
  {
    msg = f.msg;
    return FAILED;
  }
  catch (const Discard&)
  {
    return DISCARDED;
  }
  catch (const std::exception& e)
  {
    msg = std::string("unexpected exception: ") + e.what();
    return FAILED;
  }
  catch (...)
  {
    msg = "unexpected exception of unknown type";
    return FAILED;
  }
}

static void rmrf(const std::string& p)
{
  // only ever called on paths below our own scratch directory
  DIR* d = opendir(p.c_str());
  if (d)
  {
    while (dirent* e = readdir(d))
    {
      std::string n = e->d_name;
      if (n == "." || n == "..")
        continue;
      std::string q = p + "/" + n;
      struct stat st;
      if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
        rmrf(q);
      else
        unlink(q.c_str());
    }
    closedir(d);
  }
  rmdir(p.c_str());
}

static void redirectOutput(const std::string& to)
{
  int fd = open(to.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0)
  {
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
  }
}

struct ChildResult
{
  Outcome out = PASS;
  std::string msg, notes;
  std::vector<uint64_t> tape;
};

// Run one tape in a child process; survives crashes, aborts and endless loops of the code under test.
static std::vector<uint64_t> rawTape(uint64_t seed, const Sub& s, long idx);
static ChildResult runInChild(const Sub& s, const std::vector<uint64_t>& tape, int cpu = kCpuLimit,
                              const std::vector<uint64_t>& beforeSeeds = {})
{
  int p[2];
  if (pipe(p) != 0)
    abort();
  std::string log = g_scratch + "/child.log";
  fflush(nullptr);
  char* mir = static_cast<char*>(mmap(nullptr, kMirror, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  pid_t pid = fork();
  if (pid == 0)
  {
    close(p[0]);
    g_mirror = beforeSeeds.empty() ? mir : nullptr;
    redirectOutput(log);
    g_scratch += "/c" + std::to_string(getpid());
    mkdir(g_scratch.c_str(), 0700);
    for (uint64_t bs : beforeSeeds)
    {
      arm(cpu);
      Case c;
      c.state = bs;
      std::string msg;
      runOne(s, c, msg);
    }
    arm(cpu);
    Case c;
    c.tape = tape;
    c.replay = true;
    std::string msg;
    Outcome o = runOne(s, c, msg);
    arm(0);
    c.tape.resize(std::min(c.tape.size(), c.pos));
    std::ostringstream ss;
    ss << int(o) << "\n" << c.tape.size();
    for (uint64_t v : c.tape)
      ss << " " << v;
    std::string notes = c.notes.str();
    ss << "\n" << msg.size() << " " << notes.size() << "\n" << msg << notes;
    std::string t = ss.str();
    size_t off = 0;
    while (off < t.size())
    {
      ssize_t n = write(p[1], t.data() + off, t.size() - off);
      if (n <= 0)
        break;
      off += n;
    }
    close(p[1]);
    rmrf(g_scratch);
    _exit(0);
  }
  close(p[1]);
  std::string got;
  char buf[65536];
  ssize_t n;
  while ((n = read(p[0], buf, sizeof buf)) > 0)
    got.append(buf, n);
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  rmrf(g_scratch + "/c" + std::to_string(pid));
  const std::string mirrored(mir, strnlen(mir, kMirror));
  munmap(mir, kMirror);
  ChildResult r;
  std::istringstream is(got);
  int o = -1;
  size_t k = 0;
  if (is >> o >> k)
  {
    r.out = Outcome(o);
    r.tape.resize(k);
    for (auto& v : r.tape)
      is >> v;
    size_t a, b2;
    is >> a >> b2;
    is.get();
    r.msg.resize(a);
    r.notes.resize(b2);
    is.read(&r.msg[0], a);
    is.read(&r.notes[0], b2);
    return r;
  }
  r.out = CRASH;
  r.tape = tape;
  r.notes = mirrored;
  std::ostringstream m;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF)
    m << "does not terminate within " << cpu << " s of CPU time";
  else if (WIFSIGNALED(st))
    m << "process killed by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
  else
    m << "process exited unexpectedly with status " << WEXITSTATUS(st);
  std::ifstream lf(log);
  std::string line, keep;
  int cnt = 0;
  while (std::getline(lf, line) && cnt < 6)
    if (line.find("ERROR") != std::string::npos || line.find("runtime error") != std::string::npos ||
        line.find("Check failed") != std::string::npos || line.find("Assertion") != std::string::npos ||
        line.find("terminate called") != std::string::npos || line.find("  what()") != std::string::npos ||
        (line.find("    #") != std::string::npos && line.find("/repo/") != std::string::npos))
    {
      keep += " | " + line.substr(0, 300);
      ++cnt;
    }
  r.msg = m.str() + keep;
  return r;
}

static bool isBad(Outcome o) { return o == FAILED || o == CRASH; }

// Shrink: smaller = shorter tape, then lexicographically smaller.
static ChildResult shrink(const Sub& s, ChildResult best, double budget_s)
{
  const double t0 = now();
  long tries = 0;
  auto attempt = [&](const std::vector<uint64_t>& t) {
    if (now() - t0 > budget_s)
      return false;
    ++tries;
    // cap runaway candidates so that shrinking an endless loop stays affordable
    ChildResult r = runInChild(s, t, kCpuLimit);
    if (!isBad(r.out) || r.out != best.out)
      return false;
    if (r.tape.size() > best.tape.size() || (r.tape.size() == best.tape.size() && !(r.tape < best.tape)))
      return false;
    best = r;
    return true;
  };
  bool progress = true;
  while (progress && now() - t0 < budget_s)
  {
    progress = false;
    for (size_t len = std::max<size_t>(1, best.tape.size() / 2); len >= 1; len /= 2)
    {
      for (size_t st = 0; st + len <= best.tape.size();)
      {
        std::vector<uint64_t> t = best.tape;
        t.erase(t.begin() + st, t.begin() + st + len);
        if (attempt(t))
        {
          progress = true;
          continue;
        }
        bool allz = true;
        for (size_t k = st; k < st + len; ++k)
          allz = allz && best.tape[k] == 0;
        if (!allz)
        {
          t = best.tape;
          std::fill(t.begin() + st, t.begin() + st + len, 0);
          if (attempt(t))
            progress = true;
        }
        st += len;
        if (now() - t0 > budget_s)
          break;
      }
      if (len == 1)
        break;
    }
    for (size_t k = 0; k < best.tape.size() && now() - t0 < budget_s; ++k)
    {
      for (int sh = 1; sh <= 20; sh += 3)
      {
        std::vector<uint64_t> t = best.tape;
        if (t[k] == 0)
          break;
        t[k] >>= sh;
        if (attempt(t))
        {
          progress = true;
          break;
        }
        if (k >= best.tape.size())
          break;
      }
    }
  }
  return best;
}

static std::string jsonStr(const std::string& s)
{
  std::string o = "\"";
  for (unsigned char ch : s)
  {
    if (ch == '"' || ch == '\\')
    {
      o += '\\';
      o += ch;
    }
    else if (ch == '\n')
      o += "\\n";
    else if (ch < 0x20 || ch >= 0x7f)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    }
    else
      o += ch;
  }
  return o + "\"";
}

struct Progress
{
  volatile long sub, idx;
};

static uint64_t caseSeed(uint64_t seed, const Sub& s, long idx)
{
  Case c;
  c.state = seed * 0x9E3779B97F4A7C15ull + hashStr(s.prop + "/" + s.name) + static_cast<uint64_t>(idx) * 0xD1B54A32D192ED03ull;
  c.next64();
  return c.next64();
}

static std::vector<uint64_t> rawTape(uint64_t seed, const Sub& s, long idx)
{
  Case c;
  c.state = caseSeed(seed, s, idx);
  std::vector<uint64_t> t(60000);
  for (auto& v : t)
    v = c.next64();
  return t;
}
static ChildResult runHistory(const Sub& s, uint64_t seed, const std::vector<long>& idx)
{
  std::vector<uint64_t> before;
  for (size_t k = 0; k + 1 < idx.size(); ++k)
    before.push_back(caseSeed(seed, s, idx[k]));
  return runInChild(s, rawTape(seed, s, idx.back()), kCpuLimit, before);
}

struct Stats
{
  long evals = 0, discards = 0, nontriv = 0, skipped = 0;
  std::unordered_set<uint64_t> seen;
  std::map<std::string, long> labels;
  std::vector<std::string> samples;
};

static void writeStats(const std::string& f, const std::vector<Stats>& st)
{
  std::ofstream o(f, std::ios::binary);
  for (auto& s : st)
  {
    o << s.evals << " " << s.discards << " " << s.nontriv << " " << s.skipped << " " << s.seen.size() << " "
      << s.labels.size() << " " << s.samples.size() << "\n";
    for (uint64_t h : s.seen)
      o << h << "\n";
    for (auto& l : s.labels)
      o << l.second << " " << l.first << "\n";
    for (auto& x : s.samples)
    {
      std::string y = x;
      std::replace(y.begin(), y.end(), '\n', ' ');
      o << y << "\n";
    }
  }
}
static void readStats(const std::string& f, std::vector<Stats>& st)
{
  std::ifstream o(f, std::ios::binary);
  if (!o)
    return;
  for (auto& s : st)
  {
    long e, d, nt, sk;
    size_t ns, nl, nsm;
    if (!(o >> e >> d >> nt >> sk >> ns >> nl >> nsm))
      return;
    s.evals += e;
    s.discards += d;
    s.nontriv += nt;
    s.skipped += sk;
    for (size_t k = 0; k < ns; ++k)
    {
      uint64_t h;
      o >> h;
      s.seen.insert(h);
    }
    for (size_t k = 0; k < nl; ++k)
    {
      long v;
      std::string l;
      o >> v;
      o.get();
      std::getline(o, l);
      s.labels[l] += v;
    }
    if (nl == 0)
    {
      std::string l;
      std::getline(o, l);
    }
    for (size_t k = 0; k < nsm; ++k)
    {
      std::string l;
      std::getline(o, l);
      if (s.samples.size() < 3)
        s.samples.push_back(l);
    }
  }
}

#ifndef PBT_FUZZ
int main(int argc, char** argv)
{
  std::string prop, tier = "quick", out, replay, only, replayDir = ".";
  uint64_t seed = 1;
  int jobs = 8;
  double scale = 1, maxWall = 600;
  bool list = false;
  for (int k = 1; k < argc; ++k)
  {
    std::string a = argv[k];
    auto val = [&]() { return std::string(argv[++k]); };
    if (a == "--property")
      prop = val();
    else if (a == "--tier")
      tier = val();
    else if (a == "--seed")
      seed = std::stoull(val());
    else if (a == "--out")
      out = val();
    else if (a == "--replay")
      replay = val();
    else if (a == "--replay-dir")
      replayDir = val();
    else if (a == "--only")
      only = val();
    else if (a == "--jobs")
      jobs = std::stoi(val());
    else if (a == "--scale")
      scale = std::stod(val());
    else if (a == "--max-wall")
      maxWall = std::stod(val());
    else if (a == "--list")
      list = true;
  }
  std::vector<Sub> subs;
  for (auto& s : registry())
    if ((prop.empty() || s.prop == prop) && (only.empty() || ("," + only + ",").find("," + s.name + ",") != std::string::npos))
      subs.push_back(s);
  std::sort(subs.begin(), subs.end(), [](const Sub& a, const Sub& b) { return a.name < b.name; });
  if (list)
  {
    for (auto& s : subs)
      std::cout << s.prop << " " << s.name << " " << s.quick << " " << s.thorough << "\n";
    return 0;
  }
  char tmpl[] = "/tmp/rct_pbt_XXXXXX";
  if (!mkdtemp(tmpl))
    return 3;
  const std::string root = tmpl;
  g_scratch = root;
  struct Cleanup
  {
    std::string p;
    pid_t owner;
    ~Cleanup()
    {
      if (getpid() == owner)
        rmrf(p);
    }
  } cleanup{ root, getpid() };

  if (!replay.empty())
  {
    std::ifstream f(replay);
    std::string key, name, line;
    std::vector<uint64_t> tape;
    std::vector<long> hist;
    while (std::getline(f, line))
    {
      std::istringstream is(line);
      is >> key;
      if (key == "check")
      {
        is >> prop >> name;
      }
      else if (key == "tape")
      {
        uint64_t v;
        while (is >> v)
          tape.push_back(v);
      }
      else if (key == "history")
      {
        long v;
        is >> seed;
        while (is >> v)
          hist.push_back(v);
      }
    }
    for (auto& s : registry())
      if (s.prop == prop && s.name == name)
      {
        ChildResult r = hist.empty() ? runInChild(s, tape) : runHistory(s, seed, hist);
        std::cout << "input: " << r.notes << "\n";
        if (isBad(r.out))
        {
          std::cout << "REPRODUCED " << prop << "/" << name << ": " << r.msg << "\n";
          std::cout << "VIOLATION property=" << prop << " replay=" << replay << "\n";
          return 1;
        }
        std::cout << "not reproduced (" << (r.out == DISCARDED ? "discarded" : "passes") << ")\n";
        return 0;
      }
    std::cerr << "no such check: " << prop << "/" << name << "\n";
    return 3;
  }
  if (subs.empty())
  {
    std::cerr << "no sub checks\n";
    return 3;
  }

  // --- search
  const double t0 = now();
  std::vector<long> counts;
  for (auto& s : subs)
    counts.push_back(std::max<long>(1, std::lround((tier == "thorough" ? s.thorough : s.quick) * scale)));
  Progress* prog = static_cast<Progress*>(
      mmap(nullptr, sizeof(Progress) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  volatile int* stop = static_cast<volatile int*>(
      mmap(nullptr, sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  *stop = 0;

  auto workerMain = [&](int w) {
    redirectOutput("/dev/null");
    g_scratch = root + "/w" + std::to_string(w);
    mkdir(g_scratch.c_str(), 0700);
    std::vector<Stats> st(subs.size());
    int code = 0;
    for (size_t si = 0; si < subs.size() && !*stop; ++si)
    {
      for (long idx = w; idx < counts[si]; idx += jobs)
      {
        if (*stop)
          break;
        if (now() - t0 > maxWall)
        {
          st[si].skipped += (counts[si] - idx + jobs - 1) / jobs;
          break;
        }
        prog[w].sub = si;
        prog[w].idx = idx;
        Case c;
        c.state = caseSeed(seed, subs[si], idx);
        std::string msg;
        arm(kCpuLimit);
        Outcome o = runOne(subs[si], c, msg);
        arm(0);
        Stats& s = st[si];
        if (o == DISCARDED)
        {
          ++s.discards;
          continue;
        }
        ++s.evals;
        for (auto& l : c.labels)
          s.labels[l.first]++;
        if (c.nontrivial_)
        {
          ++s.nontriv;
          s.seen.insert(hashTape(hashStr(subs[si].name), c.tape));
        }
        if (s.samples.size() < 2 && c.nontrivial_)
          s.samples.push_back(subs[si].name + "#" + std::to_string(idx) + ": " + c.notes.str().substr(0, 700));
        if (o == FAILED)
        {
          *stop = 1;
          code = 10;
          break;
        }
      }
      if (code)
        break;
    }
    writeStats(root + "/stats" + std::to_string(w), st);
    rmrf(g_scratch);
    fflush(nullptr);
    _exit(code);
  };

  std::vector<pid_t> pids(jobs);
  for (int w = 0; w < jobs; ++w)
  {
    fflush(nullptr);
    pids[w] = fork();
    if (pids[w] == 0)
      workerMain(w);
  }
  struct Bad
  {
    size_t sub;
    long idx;
  };
  std::vector<Bad> bad;
  for (int left = jobs; left > 0; --left)
  {
    int st = 0;
    pid_t pid = wait(&st);
    int w = std::find(pids.begin(), pids.end(), pid) - pids.begin();
    if (w >= jobs)
    {
      ++left;
      continue;
    }
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
    {
      *stop = 1;
      bad.push_back({ static_cast<size_t>(prog[w].sub), prog[w].idx });
      rmrf(root + "/w" + std::to_string(w));
    }
  }
  std::vector<Stats> st(subs.size());
  for (int w = 0; w < jobs; ++w)
    readStats(root + "/stats" + std::to_string(w), st);

  int violations = 0, unreproduced = 0;
  std::sort(bad.begin(), bad.end(), [](const Bad& a, const Bad& b) { return std::tie(a.sub, a.idx) < std::tie(b.sub, b.idx); });
  std::string vtext;
  for (auto& b : bad)
  {
    const Sub& s = subs[b.sub];
    // raw 64-bit values are reduced modulo n at draw time, which gives exactly the draws of the search
    std::vector<uint64_t> tape = rawTape(seed, s, b.idx);
    ChildResult r = runInChild(s, tape);
    if (!isBad(r.out))
    {
      // passes alone: does it need the cases that ran before it in the same process?
      std::vector<long> hist;
      ChildResult hr;
      for (long len : { 2L, 16L, 128L, 1000000L })
      {
        hist.clear();
        for (long q = std::max<long>(b.idx % jobs, b.idx - (len - 1) * jobs); q <= b.idx; q += jobs)
          hist.push_back(q);
        hr = runHistory(s, seed, hist);
        if (isBad(hr.out))
          break;
      }
      int again = 0;
      if (isBad(hr.out))
        for (int k = 0; k < 3; ++k)
          if (isBad(runHistory(s, seed, hist).out))
            ++again;
      if (again == 3)
      {
        // drop earlier cases that are not needed
        for (size_t k = 0; k + 1 < hist.size() && hist.size() > 2 && k < 200;)
        {
          std::vector<long> h2 = hist;
          h2.erase(h2.begin() + k);
          ChildResult x = runHistory(s, seed, h2);
          if (isBad(x.out))
          {
            hist = h2;
            hr = x;
          }
          else
            ++k;
        }
        std::string file = replayDir + "/" + s.prop + "_" + s.name + "_h" + std::to_string(b.idx) + ".replay";
        std::ofstream f(file);
        f << "check " << s.prop << " " << s.name << "\nhistory " << seed;
        for (long q : hist)
          f << " " << q;
        f << "\nmessage " << hr.msg << "\ninput (last of the history) " << hr.notes << "\n";
        f.close();
        std::cout << "FAILED " << s.prop << "/" << s.name << " case " << b.idx << " after " << hist.size() - 1
                  << " other case(s) in the same process: " << hr.msg << "\n  last input: " << hr.notes << "\n";
        std::cout << "VIOLATION property=" << s.prop << " replay=" << file << "\n";
        ++violations;
        break;
      }
      ++unreproduced;
      std::cerr << "note: case " << s.name << "#" << b.idx << " failed in the search but passes alone\n";
      continue;
    }
    ChildResult best = shrink(s, r, r.msg.find("terminate within") != std::string::npos ? 150 : 60);
    int again = 0;
    for (int k = 0; k < 3; ++k)
      if (isBad(runInChild(s, best.tape).out))
        ++again;
    if (again < 3)
    {
      best = r;
      again = 0;
      for (int k = 0; k < 3; ++k)
        if (isBad(runInChild(s, best.tape).out))
          ++again;
    }
    if (again < 3)
    {
      ++unreproduced;
      std::cerr << "note: failure of " << s.name << "#" << b.idx << " is not reproducible: " << best.msg << "\n";
      continue;
    }
    std::string file = replayDir + "/" + s.prop + "_" + s.name + "_" + std::to_string(b.idx) + ".replay";
    std::ofstream f(file);
    f << "check " << s.prop << " " << s.name << "\n";
    f << "tape";
    for (uint64_t v : best.tape)
      f << " " << v;
    f << "\nseed " << seed << " case " << b.idx << "\n";
    f << "message " << best.msg << "\n";
    f << "input " << best.notes << "\n";
    f.close();
    std::cout << "FAILED " << s.prop << "/" << s.name << " case " << b.idx << ": " << best.msg << "\n  minimal input: " << best.notes
              << "\n";
    std::cout << "VIOLATION property=" << s.prop << " replay=" << file << "\n";
    ++violations;
    break;
  }
  long ev = 0, di = 0, nt = 0, sk = 0, dn = 0;
  std::ostringstream j;
  j << "{\"subchecks\":{";
  for (size_t k = 0; k < subs.size(); ++k)
  {
    auto& s = st[k];
    ev += s.evals;
    di += s.discards;
    nt += s.nontriv;
    sk += s.skipped;
    dn += s.seen.size();
    j << (k ? "," : "") << jsonStr(subs[k].name) << ":{\"evaluations\":" << s.evals << ",\"discarded\":" << s.discards
      << ",\"nontrivial\":" << s.nontriv << ",\"distinct_nontrivial\":" << s.seen.size() << ",\"skipped_wall\":" << s.skipped
      << ",\"rule\":" << jsonStr(subs[k].rule) << ",\"classes\":{";
    bool first = true;
    for (auto& l : s.labels)
    {
      j << (first ? "" : ",") << jsonStr(l.first) << ":" << l.second;
      first = false;
    }
    j << "}}";
  }
  j << "},\"evaluations\":" << ev << ",\"discarded\":" << di << ",\"distinct_nontrivial\":" << dn << ",\"skipped_wall\":" << sk
    << ",\"violations\":" << violations << ",\"unreproduced\":" << unreproduced << ",\"wall_s\":" << (now() - t0)
    << ",\"samples\":[";
  bool first = true;
  for (auto& s : st)
    for (auto& x : s.samples)
    {
      j << (first ? "" : ",") << jsonStr(x);
      first = false;
    }
  j << "]}";
  if (!out.empty())
    std::ofstream(out) << j.str() << "\n";
  std::cout << "cases " << ev << " (discarded " << di << ", distinct non-trivial " << dn << ", skipped " << sk << "), "
            << now() - t0 << " s, violations " << violations << (unreproduced ? ", unreproduced failures " : "")
            << (unreproduced ? std::to_string(unreproduced) : "") << std::endl;
  return violations ? 1 : 0;
}
#endif
