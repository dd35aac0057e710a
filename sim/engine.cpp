#include "engine.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unordered_set>
#include <algorithm>
#include <map>

extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:symbolize=0:"
         "quarantine_size_mb=8:max_malloc_fill_size=1048576:malloc_fill_byte=190:"
         "detect_stack_use_after_return=0:print_legend=0:handle_abort=1:"
         "check_initialization_order=0:detect_odr_violation=0:thread_local_quarantine_size_kb=64";
}
extern "C" const char* __ubsan_default_options() {
  return "halt_on_error=1:exitcode=78:symbolize=0:print_stacktrace=0";
}

namespace sim {
Ctx* g = nullptr;
int32_t  g_malloc_fail_in = -1;
uint32_t g_malloc_failed = 0;
bool     g_malloc_fail_sticky = false;
size_t g_malloc_limit = 0;

size_t heap_in_use() {  return __sanitizer_get_current_allocated_bytes();  }

static inline uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
uint64_t hash64(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9E3779B97F4A7C15ULL + b + 0x1234567ULL;
  return splitmix(x);
}
static uint64_t hash_bytes(uint64_t h, const char* p, size_t n) {
  h ^= 0xcbf29ce484222325ULL;
  for (size_t i = 0; i < n; i++) {  h ^= (uint8_t) p[i];  h *= 0x100000001b3ULL;  }
  return h;
}
static inline uint64_t rotl(const uint64_t x, int k) {  return (x << k) | (x >> (64 - k));  }

uint32_t Ctx::raw() {  // xoshiro256**
  const uint64_t result = rotl(_s[1] * 5, 7) * 9;
  const uint64_t t = _s[1] << 17;
  _s[2] ^= _s[0]; _s[3] ^= _s[1]; _s[1] ^= _s[2]; _s[0] ^= _s[3];
  _s[2] ^= t;  _s[3] = rotl(_s[3], 45);
  return (uint32_t) (result >> 32);
}

static uint32_t record(Shm* s, uint32_t v) {
  if (s->n_choices < MAX_CHOICES) {  s->choices[s->n_choices++] = v;  }
  return v;
}

uint32_t Ctx::draw(uint32_t n) {
  uint32_t v = 0;
  if (n <= 1) return 0;        // Not a choice.
  if (_replay) {
    const std::vector<uint32_t>* src = nullptr;
    if (0 == _section)      src = &_rc.prefix;
    else if (1 == _section) src = (_cur_op <= _rc.ops.size() && _cur_op > 0) ? &_rc.ops[_cur_op-1] : nullptr;
    else                    src = &_rc.tail;
    if (src && (_pos < src->size())) v = (*src)[_pos];
    _pos++;
    if (v >= n) v %= n;
  }
  else {
    v = (uint32_t) (((uint64_t) raw() * n) >> 32);
  }
  return record(_shm, v);
}

bool Ctx::chance(uint32_t num, uint32_t den) {
  // Recorded as a bit, with zero meaning "did not happen".
  if (_replay) {  return 0 != draw(2);  }
  const bool b = (((uint64_t) raw() * den) >> 32) < num;
  record(_shm, b ? 1 : 0);
  return b;
}

uint64_t Ctx::salt() {  return splitmix(_salt);  }

bool Ctx::next_op() {
  if (_failed) return false;
  if (2 == _section) return false;
  if (_replay) {
    if (_cur_op >= _rc.ops.size()) return false;
  }
  else {
    if (_cur_op >= _planned) return false;
    if (_shm->n_choices > MAX_CHOICES - 4096) return false;
  }
  if (_shm->n_ops >= MAX_OPS) return false;
  _shm->op_start[_shm->n_ops++] = _shm->n_choices;
  _cur_op++;
  _pos = 0;
  _section = 1;
  _shm->ops++;
  return true;
}

void Ctx::begin_tail() {
  if (2 == _section) return;
  _section = 2;
  _pos = 0;
  _shm->tail_at = _shm->n_choices;
}

void Ctx::ev(const char* fmt, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  if (n < 0) n = 0;
  if (n >= (int) sizeof(buf)) n = sizeof(buf) - 1;
  _shm->hash = hash64(_shm->hash, hash_bytes(0, buf, n));
  if (_tracefd >= 0) {   // Written as it happens, so that a crash keeps it.
    char pre[64];
    snprintf(pre, sizeof(pre), "[%llu us] ", (unsigned long long) (now_us - _start_us));
    std::string o = std::string(pre) + std::string(buf, n) + "\n";
    if (write(_tracefd, o.data(), o.size()) < 0) {}
  }
}

void Ctx::fail(const char* cls, const char* fmt, ...) {
  if (_failed) return;
  _failed = true;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(_shm->msg, sizeof(_shm->msg), fmt, ap);
  va_end(ap);
  snprintf(_shm->cls, sizeof(_shm->cls), "%s", cls);
  ev("VIOLATION %s: %s", _shm->cls, _shm->msg);
  _shm->status = 2;
}

void Ctx::fault(unsigned k, uint32_t n) {  if (k < MAX_FAULTS) _shm->faults[k] += n;  }
void Ctx::probe(unsigned k, uint32_t n) {  if (k < MAX_PROBES) _shm->probes[k] += n;  }
void Ctx::state(uint64_t h) {
  if (h == _last_state) return;
  const uint64_t tr = hash64(_last_state, h);
  _last_state = h;
  if (_shm->nstates < MAX_STATES) _shm->states[_shm->nstates++] = tr;
}

std::string hex(const uint8_t* b, size_t n, size_t max) {
  std::string r;  char t[4];
  for (size_t i = 0; (i < n) && (i < max); i++) {  snprintf(t, sizeof(t), "%02x", b[i]);  r += t;  }
  if (n > max) r += "..";
  return r;
}

/*******************************************************************************
* Running one child
*******************************************************************************/
struct Outcome {
  int kind;                  // 0 = held, 2 = violation
  std::string cls, msg;
  uint64_t hash;
};

struct Worker {
  Shm* shm;
  int  errfd;                // Child's stderr goes here.
};

static double wall() {
  struct timespec t;  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static Worker make_worker() {
  Worker w;
  w.shm = (Shm*) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  w.errfd = memfd_create("simerr", 0);
  return w;
}

static void reset_shm(Shm* s) {
  s->status = 0;  s->cls[0] = 0;  s->msg[0] = 0;  s->hash = 0;  s->sim_us = 0;  s->steps = 0;
  s->ops = 0;  s->nontrivial = 0;  s->nstates = 0;  s->n_choices = 0;  s->n_ops = 0;  s->tail_at = ~0u;
  memset((void*) s->faults, 0, sizeof(s->faults));
  memset((void*) s->probes, 0, sizeof(s->probes));
}

static void child_body(Worker& w, Harness& h, uint64_t seed, const Choices* rc, int tracefd, bool sym) {
  dup2(w.errfd, 2);
  int dn = open("/dev/null", O_WRONLY);
  if (dn >= 0) dup2(dn, 1);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  struct itimerval it;  memset(&it, 0, sizeof(it));
  it.it_value.tv_sec = 6;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
  static Ctx ctx;
  ctx._shm = w.shm;
  uint64_t sm = seed;
  for (int i = 0; i < 4; i++) ctx._s[i] = splitmix(sm);
  ctx._salt = 0x5eed5eed;   // Constant: filler content never depends on the PRNG stream.
  if (rc) {  ctx._replay = true;  ctx._rc = *rc;  }
  ctx._tracefd = tracefd;
  g = &ctx;
  h.run(ctx);
  w.shm->sim_us = ctx.now_us - ctx._start_us;
  if (!ctx._failed) w.shm->status = 1;
  _exit(0);
}

static std::string read_fd(int fd) {
  std::string r;  char b[4096];  off_t off = 0;  ssize_t n;
  while ((n = pread(fd, b, sizeof(b), off)) > 0) {  r.append(b, n);  off += n;  if (r.size() > 200000) break;  }
  return r;
}

static std::string g_self;
static Outcome run_child(Worker& w, Harness& h, uint64_t seed, const Choices* rc, std::string* trace = nullptr) {
  reset_shm(w.shm);
  if (ftruncate(w.errfd, 0)) {}
  lseek(w.errfd, 0, SEEK_SET);
  int tfd = trace ? memfd_create("simtrace", 0) : -1;
  pid_t p = fork();
  if (p < 0) {  perror("fork");  exit(3);  }
  if (0 == p) child_body(w, h, seed, rc, tfd, nullptr != trace);
  int st = 0;
  while ((waitpid(p, &st, 0) < 0) && (errno == EINTR)) {}
  Outcome o;  o.kind = 0;  o.hash = w.shm->hash;
  if (WIFEXITED(st) && (0 == WEXITSTATUS(st)) && (w.shm->status != 0)) {
    if (2 == w.shm->status) {  o.kind = 2;  o.cls = w.shm->cls;  o.msg = w.shm->msg;  }
  }
  else if (2 == w.shm->status) {     // What was judged wrong before the crash stands.
    o.kind = 2;  o.cls = w.shm->cls;  o.msg = w.shm->msg;
  }
  else {
    o.kind = 2;
    std::string e = read_fd(w.errfd);
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGVTALRM)) {
      o.cls = "hang";  o.msg = "the run did not terminate within 6 s of CPU time";
      o.hash = 0;      // Cut at an arbitrary instant.
    }
    else {
      o.cls = "crash";
      size_t a = e.find("AddressSanitizer: ");
      if (a != std::string::npos) {
        size_t b = e.find_first_of(" \n", a + 18);
        o.cls = "crash:" + e.substr(a + 18, b - a - 18);
      }
      else if ((a = e.find("runtime error: ")) != std::string::npos) {  o.cls = "crash:ubsan";  }
      char t[96];
      if (WIFSIGNALED(st)) snprintf(t, sizeof(t), "killed by signal %d", WTERMSIG(st));
      else                 snprintf(t, sizeof(t), "exit status %d", WEXITSTATUS(st));
      o.msg = t;
      size_t c = e.find("ERROR: ");
      if (c == std::string::npos) c = e.find("runtime error: ");
      if (c != std::string::npos) {
        size_t nl = e.find('\n', c);
        o.msg += "; " + e.substr(c, std::min<size_t>(nl == std::string::npos ? 200 : nl - c, 200));
        // Keep frame offsets so a person can symbolise them.
        size_t f = e.find("#0 ", c);  int k = 0;
        while ((f != std::string::npos) && (k++ < 8)) {
          size_t l = e.find('\n', f);
          std::string fr = e.substr(f, l - f);
          size_t p1 = fr.find('(');
          if (p1 != std::string::npos) {
            std::string loc = fr.substr(p1 + 1, fr.find(')', p1) - p1 - 1);
            size_t plus = loc.find("+0x");
            if ((loc.find("simrun") != std::string::npos || loc.find(g_self) != std::string::npos) && plus != std::string::npos) {
              std::string cmd = "addr2line -Cfe '" + g_self + "' " + loc.substr(plus + 1) + " 2>/dev/null | tr '\\n' ' '";
              if (trace) {
                FILE* pf = popen(cmd.c_str(), "r");
                if (pf) {  char lb[400];  if (fgets(lb, sizeof(lb), pf)) {  o.msg += "\n    at ";  o.msg += lb;  }  pclose(pf);  }
              }
            }
          }
          f = e.find("#", l == std::string::npos ? e.size() : l);
        }
      }
      // Hashes of crashed runs are of the log up to the crash.
    }
  }
  if (trace) {  *trace = read_fd(tfd);  close(tfd);  }
  return o;
}

static Choices extract(Shm* s) {
  Choices c;
  const uint32_t end = (s->tail_at == ~0u) ? s->n_choices : s->tail_at;
  uint32_t first = s->n_ops ? s->op_start[0] : end;
  c.prefix.assign(s->choices, s->choices + first);
  for (uint32_t i = 0; i < s->n_ops; i++) {
    uint32_t a = s->op_start[i];
    uint32_t b = (i + 1 < s->n_ops) ? s->op_start[i+1] : end;
    c.ops.emplace_back(s->choices + a, s->choices + b);
  }
  if (s->tail_at != ~0u) c.tail.assign(s->choices + s->tail_at, s->choices + s->n_choices);
  return c;
}

/*******************************************************************************
* Minimisation
*******************************************************************************/
static Choices minimise(Worker& w, Harness& h, Choices best, const std::string& cls, double budget_s, uint32_t* tries) {
  const double t0 = wall();
  auto still = [&](const Choices& c) -> bool {
    (*tries)++;
    Outcome o = run_child(w, h, 0, &c);
    return (o.kind == 2) && (o.cls == cls);
  };
  auto out_of_time = [&]() {  return (wall() - t0) > budget_s;  };
  {  // The run may have ended early: drop what was never consumed.
    Choices c = best;  c.tail.clear();
    if (!c.tail.size() && still(c)) best = c;
  }
  bool progress = true;
  while (progress && !out_of_time()) {
    progress = false;
    // 1. Delete operations, big chunks first.
    for (size_t chunk = std::max<size_t>(1, best.ops.size() / 2); chunk >= 1 && !out_of_time(); chunk /= 2) {
      for (size_t i = 0; i + 1 <= best.ops.size() && !out_of_time(); ) {
        // Work from the back: later ops are the most likely to be noise.
        size_t n = std::min(chunk, best.ops.size() - i);
        size_t at = best.ops.size() - i - n;
        Choices c = best;
        c.ops.erase(c.ops.begin() + at, c.ops.begin() + at + n);
        if (still(c)) {  best = c;  progress = true;  }
        else i += n;
      }
      if (chunk == 1) break;
    }
    // 2. Shrink values.
    auto shrink = [&](std::vector<uint32_t> Choices::* mp, int opi) {
      for (size_t k = 0; !out_of_time(); k++) {
        Choices c = best;
        std::vector<uint32_t>& v = (opi < 0) ? (c.*mp) : c.ops[opi];
        if (k >= v.size()) break;
        if (v[k] == 0) continue;
        const uint32_t orig = v[k];
        uint32_t cand[4] = {0, 1, orig / 2, orig - 1};
        for (uint32_t x : cand) {
          if (x >= orig) continue;
          v[k] = x;
          if (still(c)) {  best = c;  progress = true;  break;  }
        }
      }
    };
    for (size_t i = 0; i < best.ops.size() && !out_of_time(); i++) {
      Choices c = best;    // Try to zero a whole op at once.
      bool nz = false;
      for (auto& x : c.ops[i]) {  nz |= (x != 0);  x = 0;  }
      if (nz && still(c)) {  best = c;  progress = true;  }
      else if (nz) shrink(nullptr, (int) i);
    }
    shrink(&Choices::prefix, -1);
    if (best.tail.size() && !out_of_time()) {
      Choices c = best;  c.tail.clear();
      if (still(c)) best = c;
    }
  }
  // Trim trailing zeros, which are what an exhausted list yields anyway.
  Choices c = best;
  for (auto& o : c.ops) while (o.size() && o.back() == 0) o.pop_back();
  while (c.prefix.size() && c.prefix.back() == 0) c.prefix.pop_back();
  while (c.tail.size() && c.tail.back() == 0) c.tail.pop_back();
  if (still(c)) best = c;
  return best;
}

/*******************************************************************************
* Replay files
*******************************************************************************/
static void write_list(FILE* f, const char* k, const std::vector<uint32_t>& v) {
  fprintf(f, "%s", k);
  for (uint32_t x : v) fprintf(f, " %u", x);
  fprintf(f, "\n");
}

static void write_replay(const std::string& path, Harness& h, uint64_t seed, uint32_t idx, const Choices& c, const Outcome& o, const std::string& trace) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) {  perror(path.c_str());  exit(3);  }
  fprintf(f, "SIMREPLAY 1\nproperty %s\nverif_seed %llu\nrun_index %u\nclass %s\nhash %016llx\n",
    h.property, (unsigned long long) seed, idx, o.cls.c_str(), (unsigned long long) o.hash);
  write_list(f, "prefix", c.prefix);
  for (auto& op : c.ops) write_list(f, "op", op);
  write_list(f, "tail", c.tail);
  std::string m = o.msg;
  fprintf(f, "# %s\n# Minimised schedule and fault trace:\n", o.cls.c_str());
  size_t a = 0;
  auto emit = [&](const std::string& s) {
    size_t p = 0;
    while (p < s.size()) {
      size_t nl = s.find('\n', p);
      if (nl == std::string::npos) nl = s.size();
      fprintf(f, "# %s\n", s.substr(p, nl - p).c_str());
      p = nl + 1;
    }
  };
  (void) a;
  emit(trace);
  emit(m);
  fclose(f);
}

static bool read_replay(const char* path, Choices& c, std::string& cls, std::string& prop, uint64_t& hash) {
  FILE* f = fopen(path, "r");
  if (!f) return false;
  char* line = nullptr;  size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    std::string l(line);
    while (l.size() && (l.back() == '\n')) l.pop_back();
    if (l.empty() || l[0] == '#') continue;
    size_t sp = l.find(' ');
    std::string k = l.substr(0, sp), v = (sp == std::string::npos) ? "" : l.substr(sp + 1);
    auto list = [&]() {
      std::vector<uint32_t> r;  const char* p = v.c_str();  char* e;
      while (*p) {  unsigned long x = strtoul(p, &e, 10);  if (e == p) break;  r.push_back((uint32_t) x);  p = e;  }
      return r;
    };
    if (k == "class") cls = v;
    else if (k == "property") prop = v;
    else if (k == "hash") hash = strtoull(v.c_str(), nullptr, 16);
    else if (k == "prefix") c.prefix = list();
    else if (k == "op") c.ops.push_back(list());
    else if (k == "tail") c.tail = list();
  }
  free(line);
  fclose(f);
  return true;
}

/*******************************************************************************
* Batch
*******************************************************************************/
struct Agg {            // Per worker, shared.
  uint64_t runs, nontrivial, steps, ops, sim_us, violations;
  uint64_t faults[MAX_FAULTS], probes[MAX_PROBES];
  uint64_t runs_with_fault[MAX_FAULTS];
  uint32_t first_bad;
  uint32_t seen_bad;    // 1 if first_bad is valid.
};

static std::string jesc(const std::string& s) {
  std::string r;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {  r += '\\';  r += (char) ch;  }
    else if (ch == '\n') r += "\\n";
    else if (ch < 0x20 || ch >= 0x7f) {  char b[8];  snprintf(b, sizeof(b), "\\u%04x", ch);  r += b;  }
    else r += (char) ch;
  }
  return r;
}

static uint64_t run_seed(uint64_t seed, const char* prop, uint32_t idx) {
  return hash64(hash64(seed, hash_bytes(0, prop, strlen(prop))), idx);
}

static void usage() {
  fprintf(stderr, "usage: simrun --seed N --runs N --max-seconds S --workers N --out FILE --replay-out FILE\n"
                  "       simrun --replay FILE [--quiet]\n       simrun --one INDEX --seed N\n");
}

int engine_main(int argc, char** argv, Harness& h) {
  uint64_t seed = 1;  uint32_t runs = h.quick_runs;  double max_s = 200;  int workers = 8;
  const char* out = nullptr;  const char* rout = "/tmp/replay.txt";  const char* replay = nullptr;
  bool quiet = false;  int64_t one = -1;  bool hashes = false;
  { char b[4096];  ssize_t n = readlink("/proc/self/exe", b, sizeof(b) - 1);  if (n > 0) {  b[n] = 0;  g_self = b;  } }
  // The same addresses in every process, so that even undefined behaviour repeats.
  const int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && g_self.size() && !getenv("SIMRUN_REEXEC")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) {  setenv("SIMRUN_REEXEC", "1", 1);  execv(g_self.c_str(), argv);  }
  }
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() -> const char* {  if (i + 1 >= argc) {  usage();  exit(3);  }  return argv[++i];  };
    if (a == "--seed") seed = strtoull(nx(), nullptr, 10);
    else if (a == "--runs") runs = strtoul(nx(), nullptr, 10);
    else if (a == "--tier") {  std::string t = nx();  if (t == "thorough") runs = h.thorough_runs;  }
    else if (a == "--max-seconds") max_s = atof(nx());
    else if (a == "--workers") workers = atoi(nx());
    else if (a == "--out") out = nx();
    else if (a == "--replay-out") rout = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--quiet") quiet = true;
    else if (a == "--one") one = atoll(nx());
    else if (a == "--hashes") hashes = true;
    else {  usage();  return 3;  }
  }

  if (replay) {      // exit 1 = reproduced exactly; 0 = held; 4 = different outcome.
    Choices c;  std::string cls, prop;  uint64_t hs = 0;
    if (!read_replay(replay, c, cls, prop, hs)) {  fprintf(stderr, "cannot read %s\n", replay);  return 3;  }
    if (prop != h.property) {  fprintf(stderr, "replay is for %s\n", prop.c_str());  return 3;  }
    Worker w = make_worker();
    std::string tr;
    Outcome o = run_child(w, h, 0, &c, quiet ? nullptr : &tr);
    if (!quiet) {  fputs(tr.c_str(), stdout);  printf("%s %s\n", o.cls.c_str(), o.msg.c_str());  }
    printf("replay outcome=%s class=%s hash=%016llx\n", o.kind ? "violation" : "held", o.cls.c_str(), (unsigned long long) o.hash);
    if (o.kind == 0) return 0;
    return ((o.cls == cls) && (o.hash == hs)) ? 1 : 4;
  }
  if (one >= 0) {
    Worker w = make_worker();
    std::string tr;
    Outcome o = run_child(w, h, run_seed(seed, h.property, (uint32_t) one), nullptr, &tr);
    fputs(tr.c_str(), stdout);
    printf("outcome=%d class=%s msg=%s hash=%016llx ops=%u choices=%u nontrivial=%u\n", o.kind, o.cls.c_str(), o.msg.c_str(),
      (unsigned long long) o.hash, w.shm->ops, w.shm->n_choices, w.shm->nontrivial);
    return o.kind ? 1 : 0;
  }

  const double t0 = wall();
  Agg* agg = (Agg*) mmap(nullptr, sizeof(Agg) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  volatile uint32_t* lowest_bad = (uint32_t*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  *lowest_bad = ~0u;
  std::vector<int> setfd(workers);
  std::vector<pid_t> pids(workers);
  for (int wk = 0; wk < workers; wk++) {
    setfd[wk] = memfd_create("simset", 0);
    pid_t p = fork();
    if (p < 0) {  perror("fork");  return 3;  }
    if (0 == p) {
      Worker w = make_worker();
      Agg& A = agg[wk];
      std::unordered_set<uint64_t> st, ex;
      std::vector<uint64_t> hl;
      for (uint32_t i = wk; i < runs; i += workers) {
        if (i > *lowest_bad) break;
        if (wall() - t0 > max_s) break;
        Outcome o = run_child(w, h, run_seed(seed, h.property, i), nullptr);
        A.runs++;
        A.steps += w.shm->steps;  A.ops += w.shm->ops;  A.sim_us += w.shm->sim_us;
        if (w.shm->nontrivial) {  A.nontrivial++;  ex.insert(w.shm->hash);  }
        for (unsigned k = 0; k < MAX_FAULTS; k++) {  A.faults[k] += w.shm->faults[k];  A.runs_with_fault[k] += (w.shm->faults[k] > 0);  }
        for (unsigned k = 0; k < MAX_PROBES; k++) A.probes[k] += w.shm->probes[k];
        for (unsigned k = 0; k < w.shm->nstates; k++) {  if (st.size() < 4000000) st.insert(w.shm->states[k]);  }
        if (hashes) {  hl.push_back(((uint64_t) i));  hl.push_back(o.hash);  }
        if (o.kind) {
          A.violations++;
          if (!A.seen_bad) {  A.seen_bad = 1;  A.first_bad = i;  }
          uint32_t cur = *lowest_bad;
          while (i < cur && !__sync_bool_compare_and_swap(lowest_bad, cur, i)) cur = *lowest_bad;
          break;
        }
      }
      auto dump = [&](const std::unordered_set<uint64_t>& s) {
        uint64_t n = s.size();
        std::vector<uint64_t> v;  v.reserve(n + 1);  v.push_back(n);
        for (uint64_t x : s) v.push_back(x);
        const char* p = (const char*) v.data();  size_t left = v.size() * 8;
        while (left) {  ssize_t k = write(setfd[wk], p, left);  if (k <= 0) break;  p += k;  left -= k;  }
      };
      dump(st);  dump(ex);
      if (hashes) {
        for (size_t k = 0; k < hl.size(); k += 2) dprintf(1, "H %llu %016llx\n", (unsigned long long) hl[k], (unsigned long long) hl[k+1]);
      }
      _exit(0);
    }
    pids[wk] = p;
  }
  for (int wk = 0; wk < workers; wk++) {
    int stt;
    while ((waitpid(pids[wk], &stt, 0) < 0) && (errno == EINTR)) {}
    if (!WIFEXITED(stt) || WEXITSTATUS(stt)) {  fprintf(stderr, "worker %d died (%x)\n", wk, stt);  return 3;  }
  }
  Agg T;  memset(&T, 0, sizeof(T));
  std::unordered_set<uint64_t> st, ex;
  for (int wk = 0; wk < workers; wk++) {
    T.runs += agg[wk].runs;  T.nontrivial += agg[wk].nontrivial;  T.steps += agg[wk].steps;  T.ops += agg[wk].ops;
    T.sim_us += agg[wk].sim_us;  T.violations += agg[wk].violations;
    for (unsigned k = 0; k < MAX_FAULTS; k++) {  T.faults[k] += agg[wk].faults[k];  T.runs_with_fault[k] += agg[wk].runs_with_fault[k];  }
    for (unsigned k = 0; k < MAX_PROBES; k++) T.probes[k] += agg[wk].probes[k];
    off_t off = 0;
    for (int k = 0; k < 2; k++) {
      uint64_t n = 0;
      if (pread(setfd[wk], &n, 8, off) != 8) break;
      off += 8;
      for (uint64_t q = 0; q < n; ) {
        uint64_t b[1024];  size_t want = std::min<uint64_t>(1024, n - q) * 8;
        ssize_t got = pread(setfd[wk], b, want, off);
        if (got <= 0) break;
        for (ssize_t z = 0; z < got / 8; z++) (k ? ex : st).insert(b[z]);
        q += got / 8;  off += got;
      }
    }
    close(setfd[wk]);
  }
  const double t1 = wall();

  // Samples: the first two non-trivial runs, written out.
  std::vector<std::string> samples;
  Worker w = make_worker();
  for (uint32_t i = 0; i < runs && i < 12 && samples.size() < 2; i++) {
    std::string tr;
    Outcome o = run_child(w, h, run_seed(seed, h.property, i), nullptr, &tr);
    if (w.shm->nontrivial && !o.kind) {
      if (tr.size() > 3000) tr = tr.substr(0, 3000) + "...";
      samples.push_back("run " + std::to_string(i) + ":\n" + tr);
    }
  }
  // Repeatability sample: the same seed again must give the same event log.
  uint32_t rep_n = 0, rep_bad = 0;
  for (uint32_t i = 0; i < runs && i < 24; i++) {
    Outcome a = run_child(w, h, run_seed(seed, h.property, i * 7 % runs), nullptr);
    Outcome b = run_child(w, h, run_seed(seed, h.property, i * 7 % runs), nullptr);
    rep_n++;
    if (a.kind != b.kind || a.hash != b.hash) rep_bad++;
  }
  // Known findings, demonstrated by scripted runs in children of their own.
  std::vector<std::pair<std::string,std::string>> found;
  for (auto& f : h.findings) {
    pid_t p = fork();
    if (0 == p) {
      int dn = open("/dev/null", O_WRONLY);  dup2(dn, 1);  dup2(dn, 2);
      struct itimerval it;  memset(&it, 0, sizeof(it));  it.it_value.tv_sec = 6;  setitimer(ITIMER_VIRTUAL, &it, nullptr);
      static Ctx c;  reset_shm(w.shm);  c._shm = w.shm;  c._replay = true;  g = &c;
      _exit(f.reproduces() ? 10 : 0);
    }
    int stt = 0;  waitpid(p, &stt, 0);
    // A crash or a hang of the scripted scenario is the finding showing itself.
    if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) found.push_back({f.id, f.text});
  }

  int rc = 0;
  Outcome vo;  Choices vc;  uint32_t tries = 0;  uint32_t bad_idx = *lowest_bad;
  std::string gate = "none needed";
  if (bad_idx != ~0u) {
    const uint64_t rs = run_seed(seed, h.property, bad_idx);
    Outcome a = run_child(w, h, rs, nullptr);
    Choices c = extract(w.shm);
    Outcome b = run_child(w, h, rs, nullptr);
    if (a.kind != 2 || b.kind != 2) {
      fprintf(stderr, "ERROR: run %u is not repeatable (%s/%016llx vs %s/%016llx)\n", bad_idx, a.cls.c_str(), (unsigned long long) a.hash, b.cls.c_str(), (unsigned long long) b.hash);
      return 2;
    }
    vc = minimise(w, h, c, a.cls, (a.cls == "hang") ? 90 : 60, &tries);
    std::string tr;
    vo = run_child(w, h, 0, &vc, &tr);
    if (vo.kind != 2 || vo.cls != a.cls) {  // Fall back on the unminimised choices.
      vc = c;  vo = run_child(w, h, 0, &vc, &tr);
    }
    write_replay(rout, h, seed, bad_idx, vc, vo, tr);
    // Fresh-process gate. Code that reads memory it never set fails in every process, though not always in the same words.
    bool shape = a.cls != b.cls || a.hash != b.hash;
    gate = "same seed twice and two fresh-process replays agreed";
    for (int k = 0; k < 2; k++) {
      pid_t p = fork();
      if (0 == p) {
        int dn = open("/dev/null", O_WRONLY);  dup2(dn, 1);
        execl(g_self.c_str(), g_self.c_str(), "--replay", rout, "--quiet", (char*) nullptr);
        _exit(9);
      }
      int stt = 0;  waitpid(p, &stt, 0);
      if (WIFEXITED(stt) && WEXITSTATUS(stt) == 4) {  shape = true;  continue;  }
      if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 1) {
        fprintf(stderr, "ERROR: replay of run %u in a fresh process did not reproduce (status %x)\n", bad_idx, stt);
        return 2;
      }
    }
    if (shape) gate = "the violation recurred each time, in a shape that depends on memory that was never set";
    rc = 1;
    fprintf(stderr, "violation class=%s run=%u minimised to %u ops in %u tries\n  %s\n", vo.cls.c_str(), bad_idx, (unsigned) vc.ops.size(), tries, vo.msg.c_str());
  }

  if (out) {
    FILE* f = fopen(out, "w");
    if (!f) {  perror(out);  return 3;  }
    fprintf(f, "{\n \"property\": \"%s\", \"seed\": %llu, \"requested_runs\": %u, \"runs\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %u,\n",
      h.property, (unsigned long long) seed, runs, (unsigned long long) T.runs, (unsigned long long) T.nontrivial, (unsigned) ex.size());
    fprintf(f, " \"distinct_transitions\": %u, \"state_measure\": \"%s\", \"steps\": %llu, \"ops\": %llu, \"sim_seconds\": %.3f, \"search_wall_s\": %.3f,\n",
      (unsigned) st.size(), jesc(h.state_measure).c_str(), (unsigned long long) T.steps, (unsigned long long) T.ops, T.sim_us / 1e6, t1 - t0);
    fprintf(f, " \"rule\": \"%s\",\n \"repeatability_pairs\": %u, \"repeatability_mismatches\": %u,\n", jesc(h.rule).c_str(), rep_n, rep_bad);
    fprintf(f, " \"faults\": {");
    for (size_t k = 0; k < h.faults.size(); k++) fprintf(f, "%s\"%s\": {\"injected\": %llu, \"runs\": %llu}", k ? ", " : "", jesc(h.faults[k]).c_str(), (unsigned long long) T.faults[k], (unsigned long long) T.runs_with_fault[k]);
    fprintf(f, "},\n \"probes\": {");
    for (size_t k = 0; k < h.probes.size(); k++) fprintf(f, "%s\"%s\": %llu", k ? ", " : "", jesc(h.probes[k]).c_str(), (unsigned long long) T.probes[k]);
    fprintf(f, "},\n \"real\": [");
    for (size_t k = 0; k < h.real_components.size(); k++) fprintf(f, "%s\"%s\"", k ? ", " : "", jesc(h.real_components[k]).c_str());
    fprintf(f, "],\n \"stub\": [");
    for (size_t k = 0; k < h.stub_components.size(); k++) fprintf(f, "%s\"%s\"", k ? ", " : "", jesc(h.stub_components[k]).c_str());
    fprintf(f, "],\n \"samples\": [");
    for (size_t k = 0; k < samples.size(); k++) fprintf(f, "%s\"%s\"", k ? ", " : "", jesc(samples[k]).c_str());
    fprintf(f, "],\n \"findings\": [");
    for (size_t k = 0; k < found.size(); k++) fprintf(f, "%s{\"id\": \"%s\", \"text\": \"%s\"}", k ? ", " : "", jesc(found[k].first).c_str(), jesc(found[k].second).c_str());
    fprintf(f, "],\n \"gate\": \"%s\", \"violation\": %s%s%s, \"violation_msg\": \"%s\", \"min_ops\": %u, \"min_tries\": %u\n}\n",
      gate.c_str(), rc ? "\"" : "", rc ? jesc(vo.cls).c_str() : "null", rc ? "\"" : "", jesc(rc ? vo.msg : "").c_str(), (unsigned) vc.ops.size(), tries);
    fclose(f);
  }
  return rc;
}
} // namespace sim

int main(int argc, char** argv) {  return sim::engine_main(argc, argv, g_harness);  }
