#include "pbt.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <new>
#include <poll.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#else
#define RUNNING_ON_VALGRIND 0
#define VALGRIND_COUNT_ERRORS 0
#define VALGRIND_CHECK_MEM_IS_DEFINED(p, n) 0
#endif

#if defined(PBT_GUIDED)
// Coverage of the library (compiled with -fsanitize-coverage=trace-pc): pairs of
// consecutive basic blocks, counted per case.
static const size_t COV = 1 << 16;
static unsigned char cov_hits[COV];
static bool cov_on = false;
static uintptr_t cov_prev = 0;
extern "C" __attribute__((no_sanitize("address", "undefined"))) void __sanitizer_cov_trace_pc() {
  if (!cov_on) return;
  uintptr_t pc = (uintptr_t)__builtin_return_address(0) - (uintptr_t)&__sanitizer_cov_trace_pc;
  pc *= 0x9E3779B97F4A7C15ull;
  pc >>= 48;
  unsigned char &h = cov_hits[(pc ^ cov_prev) & (COV - 1)];
  if (h < 255) h++;
  cov_prev = pc >> 1;
}
#endif

namespace pbt {
namespace {
typedef std::chrono::steady_clock Clock;
double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }

uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
std::string json_escape(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}
std::string one_line(std::string s) {
  for (char &c : s) if (c == '\n' || c == '\r') c = ' ';
  return s;
}

enum Status { PASS, FAIL, DISCARD, CRASH, HANG };
struct Result {
  Status st = PASS;
  std::string msg, desc;
  bool nontriv = false;
  std::vector<uint64_t> choices;
  std::map<std::string, long> labels;
};

const Property *P;
uint64_t SEED = 1;
bool THOROUGH = false;
double CASE_LIMIT = 90; // seconds; far above the milliseconds a case takes

uint64_t case_seed(int fam, long idx) {
  return mix64(mix64(SEED, hash_str(std::string(P->id) + "/" + P->families[fam].name)), (uint64_t)idx);
}

Result run_inline(int fam, Src &src) {
  Result r;
  Ctx c(src);
  c.thorough = THOROUGH;
  unsigned long reports = VALGRIND_COUNT_ERRORS;
  try {
    P->families[fam].fn(c);
  } catch (Failure &f) { r.st = FAIL; r.msg = f.msg; }
  catch (Discard &d) { r.st = DISCARD; r.msg = d.why; }
  catch (std::exception &e) { r.st = FAIL; r.msg = std::string("exception escaped: ") + e.what(); }
  if (r.st != FAIL && VALGRIND_COUNT_ERRORS != reports) { r.st = FAIL; r.msg = "memcheck reports an invalid access or a use of uninitialised memory"; }
  r.nontriv = c.nontriv;
  r.desc = c.desc;
  r.labels = c.labels;
  r.choices = src.choices();
  return r;
}

void put(std::string &b, const std::string &s) {
  uint32_t n = (uint32_t)s.size();
  b.append((char *)&n, 4);
  b += s;
}
struct Rd {
  const std::string &b; size_t p = 0; bool ok = true;
  explicit Rd(const std::string &x) : b(x) {}
  template <class T> T num() { T v{}; if (p + sizeof(T) > b.size()) { ok = false; return v; } memcpy(&v, b.data() + p, sizeof(T)); p += sizeof(T); return v; }
  std::string str() { uint32_t n = num<uint32_t>(); if (!ok || p + n > b.size()) { ok = false; return ""; } std::string s = b.substr(p, n); p += n; return s; }
};
template <class T> void putn(std::string &b, T v) { b.append((char *)&v, sizeof v); }
void write_all(int fd, const std::string &b) {
  size_t o = 0;
  while (o < b.size()) {
    ssize_t n = write(fd, b.data() + o, b.size() - o);
    if (n <= 0) { if (n < 0 && errno == EINTR) continue; return; }
    o += n;
  }
}

void quiet(int errfd = -1) {
  int dn = open("/dev/null", O_WRONLY);
  dup2(dn, 1);
  dup2(errfd >= 0 ? errfd : dn, 2);
  close(dn);
}
void limits() {
  if (RUNNING_ON_VALGRIND) return;
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
  struct rlimit r = {3ull << 30, 3ull << 30};
  setrlimit(RLIMIT_AS, &r);
#endif
  struct rlimit c = {0, 0};
  setrlimit(RLIMIT_CORE, &c);
}

std::string describe_wait(int st) {
  if (WIFSIGNALED(st)) return std::string("killed by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
  return "exited with status " + std::to_string(WEXITSTATUS(st));
}

std::string read_tail(const std::string &path, size_t n = 3000) {
  std::ifstream f(path);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string s = ss.str();
  return s.size() > n ? s.substr(0, n) : s;
}

// Runs fn in a child; fn fills a buffer that is returned. Captures crash/hang.
template <class F> Status in_child(F fn, double limit, std::string &out, std::string &err) {
  int pp[2];
  if (pipe(pp)) abort();
  char tmpl[] = "/tmp/pbt_err_XXXXXX";
  int efd = mkstemp(tmpl);
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    close(pp[0]);
    quiet(efd);
    limits();
    std::string b;
    fn(b);
    write_all(pp[1], b);
    close(pp[1]);
    _exit(0);
  }
  close(pp[1]);
  close(efd);
  auto t0 = Clock::now();
  out.clear();
  bool hang = false;
  char buf[65536];
  for (;;) {
    double left = limit - since(t0);
    if (left <= 0) { hang = true; break; }
    struct pollfd pf = {pp[0], POLLIN, 0};
    int r = poll(&pf, 1, (int)std::min(left * 1000 + 1, 1000.0));
    if (r > 0) {
      ssize_t n = read(pp[0], buf, sizeof buf);
      if (n <= 0) break;
      out.append(buf, n);
    }
  }
  if (hang) kill(pid, SIGKILL);
  int st = 0;
  waitpid(pid, &st, 0);
  close(pp[0]);
  Status s = PASS;
  if (hang) { s = HANG; err = "no answer within " + std::to_string((int)limit) + " s"; }
  else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { s = CRASH; err = describe_wait(st) + "\n" + read_tail(tmpl); }
  unlink(tmpl);
  return s;
}

Result unpack(const std::string &b, Status s, const std::string &err) {
  Result r;
  Rd rd(b);
  if (s == PASS) {
    r.st = (Status)rd.num<int>();
    r.msg = rd.str();
    r.desc = rd.str();
    uint32_t n = rd.num<uint32_t>();
    for (uint32_t i = 0; i < n && rd.ok; i++) r.choices.push_back(rd.num<uint64_t>());
  } else { r.st = s; r.msg = err; }
  return r;
}
void pack(std::string &b, const Result &r) {
  putn<int>(b, r.st);
  put(b, r.msg);
  put(b, r.desc);
  putn<uint32_t>(b, (uint32_t)r.choices.size());
  for (uint64_t c : r.choices) putn<uint64_t>(b, c);
}

Result run_choices(int fam, const std::vector<uint64_t> &ch, double limit = -1) {
  std::string out, err;
  Status s = in_child([&](std::string &b) { Src src = Src::replay(ch); pack(b, run_inline(fam, src)); }, limit > 0 ? limit : CASE_LIMIT, out, err);
  Result r = unpack(out, s, err);
  if (s != PASS) r.choices = ch;
  return r;
}
// Cases from..idx of a family in one fresh process; the result of the last one.
Result run_prefix(int fam, long from, long idx, double limit = -1) {
  std::string out, err;
  Status s = in_child([&](std::string &b) {
    for (long i = from; i < idx; i++) { Src src = Src::random(case_seed(fam, i)); run_inline(fam, src); }
    Src src = Src::random(case_seed(fam, idx));
    pack(b, run_inline(fam, src));
  }, limit > 0 ? limit : CASE_LIMIT * 2, out, err);
  return unpack(out, s, err);
}
// Cases led by coverage: streams that reached something new are kept and changed further.
class Guide {
  std::vector<std::vector<uint64_t>> corpus_;
  uint64_t st_;
  size_t draw(size_t n) { return n ? (size_t)(splitmix(st_) % n) : 0; }
#if defined(PBT_GUIDED)
  std::vector<unsigned char> seen_ = std::vector<unsigned char>(COV, 0);
#endif
public:
  explicit Guide(uint64_t seed) : st_(seed) {}
  size_t size() const { return corpus_.size(); }
  Src next() {
    uint64_t seed = splitmix(st_);
    if (corpus_.size() < 8 || draw(4) == 0) return Src::random(seed);
    auto pick = [&]() -> const std::vector<uint64_t> & {
      size_t n = corpus_.size();
      return corpus_[draw(2) ? draw(n) : n - 1 - draw(std::min<size_t>(n, 48))];
    };
    std::vector<uint64_t> v = pick();
    for (size_t k = 1 + draw(3); k > 0 && !v.empty(); k--) {
      size_t i = draw(v.size()), len = 1 + draw(std::min<size_t>(v.size() - i, 12));
      switch (draw(7)) {
      case 0: for (size_t q = 1 + draw(4); q > 0; q--) v[draw(v.size())] = splitmix(st_) >> 8; break;
      case 1: v[i] = draw(2) ? v[i] + 1 : v[i] ? v[i] - 1 : 0; break;
      case 2: v.erase(v.begin() + i, v.begin() + i + len); break;
      case 3: { std::vector<uint64_t> w(v.begin() + i, v.begin() + i + len); v.insert(v.begin() + draw(v.size() + 1), w.begin(), w.end()); break; }
      case 4: { const auto &o = pick(); if (o.empty()) break; size_t j = draw(o.size()); v.resize(i); v.insert(v.end(), o.begin() + j, o.end()); break; }
      case 5: v.resize(i); break; // the rest at random
      default: { const auto &o = pick(); if (o.size() < len) break; size_t j = draw(o.size() - len + 1); for (size_t q = 0; q < len; q++) v[i + q] = o[j + q]; }
      }
      if (v.size() > 20000) v.resize(20000);
    }
    return Src::guided(v, seed);
  }
  void start() {
#if defined(PBT_GUIDED)
    memset(cov_hits, 0, COV); cov_prev = 0; cov_on = true;
#endif
  }
  void stop() {
#if defined(PBT_GUIDED)
    cov_on = false;
#endif
  }
  void keep(const Result &r) {
#if defined(PBT_GUIDED)
    bool fresh = false;
    for (size_t i = 0; i < COV; i += 8) {
      uint64_t w;
      memcpy(&w, cov_hits + i, 8);
      if (!w) continue;
      for (size_t k = i; k < i + 8; k++) {
        unsigned h = cov_hits[k];
        if (!h) continue;
        unsigned char b = h < 2 ? 1 : h < 4 ? 2 : h < 8 ? 4 : h < 16 ? 8 : h < 32 ? 16 : h < 96 ? 32 : h < 255 ? 64 : 128;
        if (!(seen_[k] & b)) { seen_[k] |= b; fresh = true; }
      }
    }
    if (fresh) corpus_.push_back(r.choices);
#else
    (void)r;
#endif
  }
};
// choices of a case: they are recorded in shared memory so that they survive a crash
struct Shared {
  std::atomic<long> next;
  std::atomic<int> stop;
  struct Slot { std::atomic<long> item; std::atomic<long> from; std::atomic<long> started_ms; } slot[64];
  uint64_t choices[64][1 << 14]; // of the case a slot works on, when led by coverage
};

std::vector<uint64_t> choices_of(int fam, long idx) {
  // generation is deterministic: rerun with recording in a child that streams
  // the choices even if the case crashes
  int pp[2];
  if (pipe(pp)) abort();
  pid_t pid = fork();
  if (pid == 0) {
    quiet(); limits();
    static Src src = Src::random(case_seed(fam, idx));
    static int wfd = pp[1];
    auto dump = [](int) {
      for (uint64_t c : src.choices()) { ssize_t n = write(wfd, &c, 8); (void)n; }
      _exit(0);
    };
    void (*h)(int) = dump;
    for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM, SIGTRAP}) signal(sg, h);
    atexit([] { for (uint64_t c : src.choices()) { ssize_t n = write(wfd, &c, 8); (void)n; } });
    alarm((unsigned)CASE_LIMIT);
    run_inline(fam, src);
    exit(0);
  }
  close(pp[1]);
  std::vector<uint64_t> v;
  uint64_t c;
  while (read(pp[0], &c, 8) == 8) v.push_back(c);
  close(pp[0]);
  int st;
  waitpid(pid, &st, 0);
  return v;
}

bool bad(const Result &r) { return r.st == FAIL || r.st == CRASH || r.st == HANG; }

bool less_choices(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

void shrink(int fam, Result &best) {
  auto t0 = Clock::now();
  int runs = 0;
  const double BUDGET = 75;
  double lim = best.st == HANG ? 5 : 20;
  if (best.st == HANG) return; // every attempt would cost the full limit
  auto attempt = [&](std::vector<uint64_t> ch) {
    if (since(t0) > BUDGET || runs > 4000) return false;
    runs++;
    Result r = run_choices(fam, ch, lim);
    if (r.st != best.st) return false;
    if (!less_choices(r.choices, best.choices)) {
      if (r.st == CRASH && less_choices(ch, best.choices)) r.choices = ch; else return false;
    }
    best = r;
    return true;
  };
  bool again = true;
  while (again && since(t0) < BUDGET) {
    again = false;
    for (size_t k : {32, 16, 8, 4, 2, 1})
      for (size_t i = best.choices.size(); i-- > 0;) {
        if (i + k > best.choices.size()) continue;
        auto ch = best.choices;
        ch.erase(ch.begin() + i, ch.begin() + i + k);
        if (attempt(ch)) again = true;
        if (since(t0) > BUDGET) return;
      }
    for (size_t k : {8, 1})
      for (size_t i = 0; i + k <= best.choices.size(); i++) {
        auto ch = best.choices;
        bool any = false;
        for (size_t j = i; j < i + k; j++) { if (ch[j]) any = true; ch[j] = 0; }
        if (any && attempt(ch)) again = true;
        if (since(t0) > BUDGET) return;
      }
    for (size_t i = 0; i < best.choices.size(); i++) {
      uint64_t lo = 0;
      for (int guard = 0; guard < 14 && i < best.choices.size() && best.choices[i] > lo; guard++) {
        auto ch = best.choices;
        uint64_t mid = lo + (ch[i] - lo) / 2;
        ch[i] = mid;
        if (attempt(ch)) again = true;
        else lo = mid + 1;
        if (since(t0) > BUDGET) return;
      }
    }
  }
}

struct Known { std::string key, text; };
std::vector<Known> load_known(const std::string &path) {
  // lines: known: property=<id> key=<key> <what fails>
  std::vector<Known> v;
  std::ifstream f(path);
  std::string l;
  std::string want = std::string("known: property=") + P->id + " key=";
  while (std::getline(f, l))
    if (l.compare(0, want.size(), want) == 0) {
      std::string r = l.substr(want.size());
      size_t sp = r.find(' ');
      v.push_back({r.substr(0, sp), sp == std::string::npos ? "" : r.substr(sp + 1)});
    }
  return v;
}

int family_by_name(const std::string &n) {
  for (size_t i = 0; i < P->families.size(); i++) if (n == P->families[i].name) return (int)i;
  return -1;
}

std::string replay_text(const char *mode, int fam, const Result &r, long from, long idx) {
  std::ostringstream o;
  o << "property " << P->id << "\nmode " << mode << "\nfamily " << (fam >= 0 ? P->families[fam].name : "-") << "\nseed " << SEED
    << "\nthorough " << (THOROUGH ? 1 : 0) << "\nfrom " << from << "\nindex " << idx << "\nchoices";
  for (uint64_t c : r.choices) o << ' ' << c;
  o << "\ncase " << one_line(r.desc) << "\nmessage " << one_line(r.msg) << "\n";
  return o.str();
}

int violation(const std::string &dir, const std::string &text, const Result &r) {
  char name[64];
  snprintf(name, sizeof name, "%s-%016llx.txt", P->id, (unsigned long long)hash_str(text));
  std::string path = dir + "/" + name;
  std::ofstream(path) << text;
  printf("case: %s\n", one_line(r.desc).c_str());
  printf("failure: %s\n", r.msg.c_str());
  printf("VIOLATION property=%s replay=%s\n", P->id, path.c_str());
  fflush(stdout);
  return 1;
}
} // namespace

bool defined(const void *p, size_t n) {
  (void)p; (void)n;
  return VALGRIND_CHECK_MEM_IS_DEFINED(p, n) == 0;
}

int main(const Property &prop, int argc, char **argv) {
  P = &prop;
  std::string evidence, replay_dir = "/tmp", known_path, replay_file, only;
#if defined(PBT_GUIDED)
  double cap = -1, scale = 1, guided = 0.25;
#else
  double cap = -1, scale = 1, guided = 0;
#endif
  int jobs = 8;
  bool list = false, selftest = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--evidence") evidence = val();
    else if (a == "--replay-dir") replay_dir = val();
    else if (a == "--known") known_path = val();
    else if (a == "--replay") replay_file = val();
    else if (a == "--seed") SEED = strtoull(val().c_str(), 0, 10);
    else if (a == "--tier") THOROUGH = val() == "thorough";
    else if (a == "--cap") cap = atof(val().c_str());
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--guided") guided = atof(val().c_str());
    else if (a == "--family") only = val();
    else if (a == "--jobs") jobs = atoi(val().c_str());
    else if (a == "--list") list = true;
    else if (a == "--selftest") selftest = true;
  }
  if (selftest) { // a stream read back gives the same case
    int wrong = 0;
    for (int f = 0; f < (int)P->families.size(); f++)
      for (long i = 0; i < 60; i++) {
        Src src = Src::random(case_seed(f, i));
        Result a = run_inline(f, src);
        Src again = Src::replay(a.choices);
        Result b = run_inline(f, again);
        if (a.st != b.st || a.desc != b.desc || a.choices != b.choices) { printf("%s %s case %ld differs when replayed\n", P->id, P->families[f].name, i); wrong++; break; }
      }
    printf("%s self test: %s\n", P->id, wrong ? "FAILED" : "passed");
    return wrong ? 3 : 0;
  }
  if (list) { for (auto &f : P->families) printf("%s quick=%ld thorough=%ld\n", f.name, f.quick, f.thorough); return 0; }
  if (cap < 0) cap = THOROUGH ? 3600 * 3 : 420;
  auto T0 = Clock::now();

  if (!replay_file.empty()) {
    std::ifstream f(replay_file);
    std::string l, mode = "choices", fam;
    long from = 0, idx = 0;
    std::vector<uint64_t> ch;
    while (std::getline(f, l)) {
      std::istringstream is(l);
      std::string k;
      is >> k;
      if (k == "mode") is >> mode;
      else if (k == "family") is >> fam;
      else if (k == "seed") is >> SEED;
      else if (k == "thorough") { int t = 0; is >> t; THOROUGH = t; }
      else if (k == "from") is >> from;
      else if (k == "index") is >> idx;
      else if (k == "choices") { uint64_t c; while (is >> c) ch.push_back(c); }
    }
    if (mode == "probe") {
      if (idx < 0 || idx >= (long)P->probes.size()) { fprintf(stderr, "bad replay file\n"); return 2; }
      std::string out, err;
      Status s = in_child([&](std::string &b) { std::string m; bool hit = P->probes[idx].fn(m); putn<int>(b, hit); put(b, m); }, CASE_LIMIT, out, err);
      Rd rd(out);
      int hit = s != PASS ? 1 : rd.num<int>();
      printf("%s\n%s\n", P->probes[idx].what, s != PASS ? err.c_str() : rd.str().c_str());
      if (hit) { printf("VIOLATION property=%s replay=%s\n", P->id, replay_file.c_str()); return 1; }
      printf("replay passes\n");
      return 0;
    }
    int fi = family_by_name(fam);
    if (fi < 0) { fprintf(stderr, "bad replay file\n"); return 2; }
    Result r = mode == "prefix" ? run_prefix(fi, from, idx) : run_choices(fi, ch);
    printf("case: %s\n%s\n", r.desc.c_str(), r.msg.c_str());
    if (bad(r)) { printf("VIOLATION property=%s replay=%s\n", P->id, replay_file.c_str()); return 1; }
    printf("replay %s\n", r.st == DISCARD ? "is discarded" : "passes");
    return 0;
  }

  int rc = 0;
  long violations = 0;
  std::vector<std::string> known_hit;
  auto known = load_known(known_path);
  long probes_run = 0;
  // fixed inputs first: regressions of repaired defects and recorded findings
  for (size_t i = 0; i < P->probes.size() && !rc; i++) {
    const Probe &pr = P->probes[i];
    std::string out, err;
    Status s = in_child([&](std::string &b) { std::string m; bool hit = pr.fn(m); putn<int>(b, hit); put(b, m); }, CASE_LIMIT, out, err);
    probes_run++;
    Rd rd(out);
    bool hit = s != PASS ? true : rd.num<int>() != 0;
    std::string m = s != PASS ? err : rd.str();
    if (!hit) continue;
    bool listed = false;
    if (*pr.known && s == PASS)
      for (auto &k : known) if (k.key == pr.known) { listed = true; known_hit.push_back(k.text); printf("KNOWN-FINDING: property=%s %s\n", P->id, k.text.c_str()); }
    if (!listed) {
      Result r; r.st = FAIL; r.msg = m; r.desc = std::string("fixed input: ") + pr.what;
      rc = violation(replay_dir, replay_text("probe", -1, r, 0, (long)i), r);
      violations++;
    }
  }
  fflush(stdout);

  // the list of chunks, interleaving the families
  struct Chunk { int fam; long from, to; bool guided; };
  std::vector<Chunk> chunks;
  {
    std::vector<std::vector<Chunk>> per;
    for (size_t f = 0; f < P->families.size(); f++) {
      if (!only.empty() && only != P->families[f].name) continue;
      long n = (long)((THOROUGH ? P->families[f].thorough : P->families[f].quick) * scale);
      long ck = std::max(1l, std::min(P->chunk, n / (4 * jobs) + 1));
      std::vector<Chunk> v;
      for (long i = 0; i < n; i += ck) v.push_back({(int)f, i, std::min(n, i + ck), false});
      long g = (long)(n * guided), gk = std::max(400l, std::min(THOROUGH ? 200000l : 20000l, g / 2 + 1));
      if (P->stateful) g = 0;
      // longer runs, so that what was found can be built on
      for (long i = 0; i < g; i += gk) v.insert(v.begin() + std::min(v.size(), (size_t)(i / gk)), {(int)f, i, std::min(g, i + gk), true});
      per.push_back(v);
    }
    size_t mx = 0;
    for (auto &v : per) mx = std::max(mx, v.size());
    // proportional interleave
    for (size_t k = 0; k < mx; k++)
      for (auto &v : per) {
        size_t a = k * v.size() / mx, b = (k + 1) * v.size() / mx;
        for (size_t q = a; q < b; q++) chunks.push_back(v[q]);
      }
  }

  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (sh) Shared();
  struct FamStat { long evals = 0, nontriv = 0, discards = 0, guided = 0, kept = 0; std::map<std::string, long> labels, why; std::vector<std::string> samples; };
  std::vector<FamStat> fs(P->families.size());
  std::unordered_set<uint64_t> distinct;
  size_t next = 0;
  struct Run { pid_t pid; int fd; size_t chunk; std::string buf; int slot; };
  std::vector<Run> live;
  std::vector<char> used(jobs, 0);
  auto now_ms = [&] { return (long)(since(T0) * 1000); };
  int ffam = -1; long ffrom = 0, fidx = 0; std::string fmsg; bool fguided = false; std::vector<uint64_t> fch;
  bool capped = false;

  while (!rc && (next < chunks.size() || !live.empty())) {
    if (since(T0) > cap) { if (next < chunks.size()) capped = true; next = chunks.size(); }
    while (next < chunks.size() && (int)live.size() < jobs && ffam < 0) {
      int slot = 0;
      while (used[slot]) slot++;
      Chunk ck = chunks[next];
      int pp[2];
      if (pipe(pp)) abort();
      sh->slot[slot].item = ck.from;
      sh->slot[slot].started_ms = now_ms();
      pid_t pid = fork();
      if (pid == 0) {
        close(pp[0]);
        quiet(); limits();
        std::string b;
        long n = 0;
        std::string body;
        int stopped = 0; long sidx = 0; std::string smsg;
        FamStat st;
        std::vector<uint64_t> hs, bad_choices;
        Guide guide(mix64(case_seed(ck.fam, ck.from), 0x6775696465ull));
        for (long i = ck.from; i < ck.to; i++) {
          sh->slot[slot].item = i;
          sh->slot[slot].started_ms = now_ms();
          Src src = ck.guided ? guide.next() : Src::random(case_seed(ck.fam, i));
          if (ck.guided) { src.mirror(sh->choices[slot], (1 << 14) - 1); guide.start(); }
          Result r = run_inline(ck.fam, src);
          if (ck.guided) { guide.stop(); guide.keep(r); st.guided++; }
          n++;
          st.evals++;
          for (auto &l : r.labels) st.labels[l.first] += l.second;
          if (r.st == DISCARD) { st.discards++; st.why[r.msg]++; continue; }
          if (r.st == FAIL) { stopped = 1; sidx = i; smsg = r.msg; if (ck.guided) bad_choices = r.choices; break; }
          if (r.nontriv) {
            st.nontriv++;
            hs.push_back(hash_str(r.desc.empty() ? std::to_string(case_seed(ck.fam, i)) : r.desc));
            if (st.samples.size() < 2) st.samples.push_back(r.desc);
          }
        }
        st.kept = (long)guide.size();
        putn<int>(b, stopped); putn<long>(b, sidx); put(b, smsg);
        putn<uint32_t>(b, (uint32_t)bad_choices.size());
        for (uint64_t h : bad_choices) putn<uint64_t>(b, h);
        putn<long>(b, st.guided); putn<long>(b, st.kept);
        putn<long>(b, st.evals); putn<long>(b, st.nontriv); putn<long>(b, st.discards);
        auto pm = [&](std::map<std::string, long> &m) { putn<uint32_t>(b, (uint32_t)m.size()); for (auto &k : m) { put(b, k.first); putn<long>(b, k.second); } };
        pm(st.labels); pm(st.why);
        putn<uint32_t>(b, (uint32_t)st.samples.size());
        for (auto &s : st.samples) put(b, s);
        putn<uint32_t>(b, (uint32_t)hs.size());
        for (uint64_t h : hs) putn<uint64_t>(b, h);
        putn<int>(b, 0x600d);
        write_all(pp[1], b);
        _exit(0);
      }
      close(pp[1]);
      used[slot] = 1;
      live.push_back({pid, pp[0], next, "", slot});
      next++;
    }
    std::vector<struct pollfd> pf;
    for (auto &r : live) pf.push_back({r.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 500);
    for (size_t i = live.size(); i-- > 0;) {
      Run &r = live[i];
      bool done = false, hang = false;
      if (pf[i].revents & (POLLIN | POLLHUP)) {
        char buf[65536];
        ssize_t n = read(r.fd, buf, sizeof buf);
        if (n > 0) r.buf.append(buf, n);
        else done = true;
      }
      if (!done && now_ms() - sh->slot[r.slot].started_ms > (long)(CASE_LIMIT * 1000)) { hang = true; kill(r.pid, SIGKILL); }
      if (!done && !hang) continue;
      int st = 0;
      waitpid(r.pid, &st, 0);
      close(r.fd);
      Chunk ck = chunks[r.chunk];
      Rd rd(r.buf);
      int tail = 0;
      if (r.buf.size() >= 4) memcpy(&tail, r.buf.data() + r.buf.size() - 4, 4);
      bool complete = tail == 0x600d && !hang;
      if (complete) {
        int stopped = rd.num<int>(); long sidx = rd.num<long>(); std::string smsg = rd.str();
        FamStat &f = fs[ck.fam];
        std::vector<uint64_t> bch;
        uint32_t nb = rd.num<uint32_t>();
        while (nb-- && rd.ok) bch.push_back(rd.num<uint64_t>());
        f.guided += rd.num<long>(); f.kept += rd.num<long>();
        f.evals += rd.num<long>(); f.nontriv += rd.num<long>(); f.discards += rd.num<long>();
        auto gm = [&](std::map<std::string, long> &m) { uint32_t n = rd.num<uint32_t>(); while (n-- && rd.ok) { std::string k = rd.str(); m[k] += rd.num<long>(); } };
        gm(f.labels); gm(f.why);
        uint32_t n = rd.num<uint32_t>();
        while (n-- && rd.ok) { std::string s = rd.str(); if (f.samples.size() < 3) f.samples.push_back(s); }
        n = rd.num<uint32_t>();
        while (n-- && rd.ok) distinct.insert(rd.num<uint64_t>());
        if (stopped && ffam < 0) { ffam = ck.fam; ffrom = ck.from; fidx = sidx; fmsg = smsg; fguided = ck.guided; fch = bch; }
      } else if (ffam < 0) {
        ffam = ck.fam; ffrom = ck.from; fidx = sh->slot[r.slot].item;
        fmsg = hang ? "no answer" : describe_wait(st);
        fguided = ck.guided;
        if (fguided) { const uint64_t *m = sh->choices[r.slot]; fch.assign(m + 1, m + 1 + std::min<uint64_t>(m[0], (1 << 14) - 1)); }
      }
      used[r.slot] = 0;
      live.erase(live.begin() + i);
    }
    if (ffam >= 0) {
      for (auto &r : live) { kill(r.pid, SIGKILL); int st; waitpid(r.pid, &st, 0); close(r.fd); used[r.slot] = 0; }
      live.clear();
      // reproduce, shrink, replay
      Result r;
      r.choices = fguided ? fch : choices_of(ffam, fidx);
      Result first = run_choices(ffam, r.choices);
      bool reported = false;
      if (bad(first)) {
        int ok = 1;
        for (int k = 0; k < 2; k++) ok += bad(run_choices(ffam, first.choices.empty() ? r.choices : first.choices));
        if (ok == 3) {
          Result best = first;
          if (best.choices.empty()) best.choices = r.choices;
          Result orig = best;
          shrink(ffam, best);
          for (int k = 0; k < 3 && best.st != HANG; k++) if (!bad(run_choices(ffam, best.choices))) { best = orig; break; }
          rc = violation(replay_dir, replay_text("choices", ffam, best, ffrom, fidx), best);
          violations++;
          reported = true;
        }
      }
      if (!reported && !fguided) {
        // depends on what the process did before: replay the history of the chunk
        int ok = 0;
        Result pr;
        for (int k = 0; k < 3; k++) { pr = run_prefix(ffam, ffrom, fidx); ok += bad(pr); if (!bad(pr)) break; }
        if (ok == 3) {
          long lo = ffrom; // shortest failing history by doubling back from the end
          for (long back = 1; fidx - back > ffrom; back *= 2) {
            Result q = run_prefix(ffam, fidx - back, fidx);
            if (bad(q)) { lo = fidx - back; pr = q; break; }
          }
          rc = violation(replay_dir, replay_text("prefix", ffam, pr, lo, fidx), pr);
          violations++;
        } else {
          fprintf(stderr, "unreproducible: family %s index %ld: %s\n", P->families[ffam].name, fidx, fmsg.c_str());
          fs[ffam].why["unreproduced failure (resource limits or timing)"]++;
          ffam = -1;
          continue;
        }
      }
      if (!reported && fguided) {
        fprintf(stderr, "unreproducible: family %s, led by coverage: %s\n", P->families[ffam].name, fmsg.c_str());
        fs[ffam].why["unreproduced failure (resource limits or timing)"]++;
        ffam = -1;
        continue;
      }
      break;
    }
  }
  double wall = since(T0);
  long evals = 0, nontriv = 0;
  for (auto &f : fs) { evals += f.evals; nontriv += f.nontriv; }
  std::ostringstream o;
  o << "{\n \"property\": \"" << P->id << "\",\n \"tier\": \"" << (THOROUGH ? "thorough" : "quick") << "\",\n \"seed\": " << SEED
    << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << distinct.size()
    << ",\n  \"nontrivial\": " << nontriv << ",\n  \"fixed_inputs\": " << probes_run
    << ",\n  \"stopped_by_time_cap\": " << (capped ? "true" : "false")
    << ",\n  \"rule\": \"" << json_escape(P->rule) << "\",\n  \"samples\": [";
  bool firsts = true;
  for (size_t f = 0; f < fs.size(); f++)
    for (auto &s : fs[f].samples) { o << (firsts ? "\n   \"" : ",\n   \"") << json_escape(std::string(P->families[f].name) + ": " + s) << "\""; firsts = false; }
  o << "],\n  \"families\": {";
  for (size_t f = 0; f < fs.size(); f++) {
    o << (f ? ",\n   \"" : "\n   \"") << P->families[f].name << "\": {\"evaluations\": " << fs[f].evals << ", \"nontrivial\": " << fs[f].nontriv << ", \"discarded\": " << fs[f].discards;
    if (fs[f].guided) o << ", \"led_by_coverage\": " << fs[f].guided << ", \"kept_for_new_coverage\": " << fs[f].kept;
    auto pm = [&](const char *k, std::map<std::string, long> &m) {
      o << ", \"" << k << "\": {";
      bool ff = true;
      for (auto &x : m) { o << (ff ? "" : ", ") << "\"" << json_escape(x.first) << "\": " << x.second; ff = false; }
      o << "}";
    };
    pm("labels", fs[f].labels);
    pm("discard_reasons", fs[f].why);
    o << "}";
  }
  o << "}\n },\n \"assumptions\": [";
  for (size_t i = 0; i < P->assumptions.size(); i++) o << (i ? ", " : "") << "\"" << json_escape(P->assumptions[i]) << "\"";
  o << "],\n \"known_findings\": [";
  for (size_t i = 0; i < known_hit.size(); i++) o << (i ? ", " : "") << "\"" << json_escape(known_hit[i]) << "\"";
  o << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
  if (!evidence.empty()) { std::ofstream(evidence + ".tmp") << o.str(); rename((evidence + ".tmp").c_str(), evidence.c_str()); }
  printf("%s: %ld cases, %ld non-trivial (%zu distinct), %.1f s%s\n", P->id, evals, nontriv, distinct.size(), wall, capped ? " (time cap)" : "");
  for (size_t f = 0; f < fs.size(); f++) {
    printf("  %-24s %8ld cases %8ld non-trivial %8ld discarded", P->families[f].name, fs[f].evals, fs[f].nontriv, fs[f].discards);
    for (auto &x : fs[f].why) printf(" [%s: %ld]", x.first.c_str(), x.second);
    printf("\n");
    if (getenv("PBT_LABELS") && fs[f].guided) printf("      led by coverage: %ld, kept %ld\n", fs[f].guided, fs[f].kept);
    if (getenv("PBT_LABELS")) for (auto &x : fs[f].labels) printf("      %s: %ld\n", x.first.c_str(), x.second);
  }
  return rc;
}
} // namespace pbt
