// compiled without instrumentation
#include "simrt.h"

#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#include <chrono>
#include <map>
#include <new>
#include <random>
#include <unordered_map>

extern "C" char* __cxa_demangle(const char*, char*, size_t*, int*);
namespace sim {

typedef std::vector<uint32_t> VC;

struct Thread {
  int id;
  std::string name;
  std::function<void()> fn;
  sem_t sem;
  pthread_t pt;
  bool done = false;
  bool blocked = false;
  std::function<bool()> pred;
  int64_t deadline = -1;
  bool timed_out = false;
  VC vc;
  std::vector<const void*> stack;
};

static thread_local Thread* me = nullptr;
static thread_local int internal = 0;  // inside the runtime: do not intercept
static bool running = false;
static Options opt;
static std::vector<Thread*> threads;
static Thread* cur = nullptr;
static uint64_t rng_state;
static int64_t clock_us, wall_skew_us;
static int64_t nsteps, nswitches;
static std::string viol_cls, viol_msg;
std::function<void(const std::string&, const std::string&)> on_fatal;
int64_t n_accesses, n_mutex, n_tasks, n_allocs;

struct In {
  In() { internal++; }
  ~In() { internal--; }
};

static uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
uint64_t draw() { return splitmix(rng_state); }
static double drawp() { return (draw() >> 11) * (1.0 / 9007199254740992.0); }

bool active() { return running && me != nullptr && internal == 0; }
int self() { return me ? me->id : -1; }
int64_t now_us() { return clock_us; }
int64_t steps() { return nsteps; }
int64_t switches() { return nswitches; }
void jump_clock_ms(int64_t ms) { wall_skew_us += ms * 1000; }

// ---------------------------------------------------------------- happens-before
static void vc_join(VC& a, const VC& b) {
  if (a.size() < b.size()) a.resize(b.size(), 0);
  for (size_t i = 0; i < b.size(); i++)
    if (a[i] < b[i]) a[i] = b[i];
}
static void tick(Thread* t) {
  if ((int)t->vc.size() <= t->id) t->vc.resize(t->id + 1, 0);
  t->vc[t->id]++;
}
static std::unordered_map<const void*, VC>* objvc;
void hb_release(const void* o) {
  if (!running || !me) return;
  In in;
  vc_join((*objvc)[o], me->vc);
  tick(me);
}
void hb_acquire(const void* o) {
  if (!running || !me) return;
  In in;
  auto it = objvc->find(o);
  if (it != objvc->end()) vc_join(me->vc, it->second);
}

void hb_reset() {
  In in;
  uint32_t own = me->vc[me->id];
  me->vc.assign(me->id + 1, 0);
  me->vc[me->id] = own + 1;
}
Quiet::Quiet() { internal++; }
Quiet::~Quiet() { internal--; }

// shadow memory: what happened to each granule of eight bytes
struct Entry {
  int th;
  uint32_t clk;
  const void* pc;
  uint8_t mask;
  bool write;
};
struct Granule {
  std::vector<Entry> e;
  bool freed = false;
};
struct Page {
  Granule g[512];
};
static std::unordered_map<uintptr_t, Page*>* shadow;
static uintptr_t last_key;
static Page* last_page;
static Page* page(uintptr_t key, bool make) {
  if (last_page && last_key == key) return last_page;
  auto it = shadow->find(key);
  if (it == shadow->end()) {
    if (!make) return nullptr;
    it = shadow->emplace(key, new Page).first;
  }
  last_key = key;
  return last_page = it->second;
}
static std::map<uintptr_t, size_t>* freed;      // quarantine
static std::vector<void*>* quarantine;

static std::string where(const void* pc) {
  Dl_info i;
  if (pc && dladdr(pc, &i) && i.dli_sname) {
    int st;
    char* d = __cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    std::string s, r = d ? d : i.dli_sname;
    free(d);
    int depth = 0;  // without template arguments
    for (char c : r) {
      if (c == '<') depth++;
      if (!depth) s += c;
      if (c == '>') depth--;
    }
    return s;
  }
  return "?";
}
static std::string frames(Thread* t) {
  // the innermost frames that belong to the code under test
  std::string out;
  int n = 0;
  for (int i = (int)t->stack.size() - 1; i >= 0 && n < 2; i--) {
    std::string s = where(t->stack[i]);
    size_t p = s.find('(');
    std::string head = s.substr(0, p);
    if (head.rfind("reagent::", 0) == 0 && true) {
      out += (n ? " < " : "") + head;
      n++;
    }
  }
  return out.empty() ? "?" : out;
}

void violation(const std::string& cls, const std::string& msg) {
  In in;
  if (viol_cls.empty()) {
    viol_cls = cls;
    viol_msg = msg;
  }
}
bool have_violation(std::string* c, std::string* m) {
  *c = viol_cls;
  *m = viol_msg;
  return !viol_cls.empty();
}
void fatal(const std::string& cls, const std::string& msg) {
  In in;
  if (on_fatal) on_fatal(cls, msg);
  _exit(9);
}

static void access(uintptr_t a, size_t n, bool write, const void* pc) {
  if (!opt.races || !active() || !viol_cls.empty()) return;
  In in;
  n_accesses++;
  Thread* t = me;
  const uint32_t now = t->vc[t->id];
  if (n > 4096) n = 4096;
  for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
    uintptr_t lo = g << 3 > a ? g << 3 : a, hi = (g + 1) << 3 < a + n ? (g + 1) << 3 : a + n;
    const uint8_t mask = uint8_t(((1u << (hi - lo)) - 1) << (lo & 7));
    Granule& c = page(g >> 9, true)->g[g & 511];
    if (c.freed) {
      violation("use-after-free", std::string(write ? "write" : "read") + " of freed memory in " + frames(t) + " (thread " + t->name + ")");
      return;
    }
    bool same = false;
    size_t out = 0;
    for (size_t k = 0; k < c.e.size(); k++) {
      Entry& x = c.e[k];
      if (x.th == t->id) {
        if (x.clk == now && x.write >= write && (x.mask & mask) == mask) same = true;
      } else if ((x.mask & mask) && (x.write || write) && !(x.th < (int)t->vc.size() && t->vc[x.th] >= x.clk)) {
        violation("data-race", std::string(write ? "write" : "read") + " in " + frames(t) + " (thread " + t->name +
                                   ") is not ordered after the " + (x.write ? "write" : "read") + " in " + where(x.pc) + " (thread " +
                                   threads[x.th]->name + ")");
        return;
      }
      // what this access covers need not be remembered
      bool covered = (x.mask & ~mask) == 0 && (write || (x.th == t->id && !x.write));
      if (same || !covered) {
        if (out != k) c.e[out] = x;
        out++;
      }
    }
    c.e.resize(out);
    if (!same) c.e.push_back(Entry{t->id, now, t->stack.empty() ? pc : t->stack.back(), mask, write});
  }
}

// new memory: no history
static void forget(uintptr_t a, size_t n) {
  for (uintptr_t g = a >> 3; g <= (a + (n ? n : 1) - 1) >> 3; g++) {
    Page* p = page(g >> 9, false);
    if (!p) {
      g |= 511;
      continue;
    }
    p->g[g & 511].e.clear();
    p->g[g & 511].freed = false;
  }
}
static void mark_freed(uintptr_t a, size_t n) {
  if (!opt.races) return;
  for (uintptr_t g = a >> 3; g <= (a + (n ? n : 1) - 1) >> 3; g++) page(g >> 9, true)->g[g & 511].freed = true;
}

// ---------------------------------------------------------------- scheduling
static void transfer(Thread* t) {
  Thread* from = me;
  if (t == from) return;
  nswitches++;
  cur = t;
  sem_post(&t->sem);
  if (!from->done)
    while (sem_wait(&from->sem) != 0) {
    }
}

static void pick() {
  // the calling thread holds the baton and cannot or need not go on
  In in;
  for (;;) {
    std::vector<Thread*> ready;
    for (auto t : threads) {
      if (t->done) continue;
      if (t->blocked) {
        if (t->pred && t->pred()) {
          ready.push_back(t);
        } else if (t->deadline >= 0 && t->deadline <= clock_us) {
          ready.push_back(t);
        }
      } else {
        ready.push_back(t);
      }
    }
    if (ready.empty()) {
      int64_t best = -1;
      for (auto t : threads)
        if (!t->done && t->blocked && t->deadline >= 0 && (best < 0 || t->deadline < best)) best = t->deadline;
      if (best < 0) {
        std::string s;
        for (auto t : threads)
          if (!t->done) s += t->name + " ";
        fatal("deadlock", "nobody can go on: " + s);
      }
      clock_us = best;
      continue;
    }
    Thread* n = ready[draw() % ready.size()];
    if (n->blocked) {
      n->timed_out = !(n->pred && n->pred());
      n->blocked = false;
      n->pred = nullptr;
      n->deadline = -1;
    }
    transfer(n);
    return;
  }
}

void yield(const char*) {
  if (!running || !me || internal) return;
  nsteps++;
  if (nsteps > opt.max_steps) fatal("no-progress", "too many steps");
  if (drawp() >= opt.switch_p) return;
  pick();
}

bool wait_until(const std::function<bool()>& pred, int64_t deadline_us) {
  if (!running || !me) return true;
  nsteps++;
  {
    In in;
    if (pred && pred()) return true;
    me->blocked = true;
    me->pred = pred;
    me->deadline = deadline_us;
    me->timed_out = false;
  }
  pick();
  return !me->timed_out;
}

void sleep_ms(int64_t ms) {
  wait_until(nullptr, clock_us + ms * 1000);
}

static void* body(void* p) {
  Thread* t = (Thread*)p;
  internal++;
  while (sem_wait(&t->sem) != 0) {
  }
  me = t;
  internal--;
  try {
    t->fn();
  } catch (const Abort&) {
  } catch (const std::exception& e) {
    fatal("terminate", "an exception left a thread (" + t->name + "): " + e.what());
  }
  internal++;
  hb_release(t);
  t->done = true;
  t->fn = nullptr;
  pick();
  return nullptr;
}

static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_join)(pthread_t, void**);
static int (*real_lock)(pthread_mutex_t*);
static int (*real_unlock)(pthread_mutex_t*);
static int (*real_trylock)(pthread_mutex_t*);

static void resolve() {
  if (real_create) return;
  real_join = (decltype(real_join))dlsym(RTLD_NEXT, "pthread_join");
  real_lock = (decltype(real_lock))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  real_unlock = (decltype(real_unlock))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  real_trylock = (decltype(real_trylock))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
}

int spawn(const std::string& name, std::function<void()> fn) {
  In in;
  resolve();
  Thread* t = new Thread;
  t->id = threads.size();
  t->name = name;
  t->fn = std::move(fn);
  sem_init(&t->sem, 0, 0);
  t->vc = me->vc;
  tick(t);
  tick(me);
  threads.push_back(t);
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1 << 20);
  if (real_create(&t->pt, &at, body, t) != 0) fatal("harness", "cannot create a thread");
  pthread_attr_destroy(&at);
  return t->id;
}

void join(int id) {
  Thread* t = threads[id];
  wait_until([t] { return t->done; });
  hb_acquire(t);
}

void begin(const Options& o) {
  In in;
  resolve();
  opt = o;
  rng_state = o.seed;
  clock_us = 0;
  wall_skew_us = 0;
  nsteps = nswitches = 0;
  n_accesses = n_mutex = n_tasks = n_allocs = 0;
  viol_cls.clear();
  viol_msg.clear();
  objvc = new std::unordered_map<const void*, VC>;
  shadow = new std::unordered_map<uintptr_t, Page*>;
  freed = new std::map<uintptr_t, size_t>;
  quarantine = new std::vector<void*>;
  Thread* t = new Thread;
  t->id = 0;
  t->name = "main";
  sem_init(&t->sem, 0, 0);
  tick(t);
  threads.push_back(t);
  me = t;
  cur = t;
  running = true;
}

struct MutexState {
  int owner = -1;
  int depth = 0;
  int readers = 0;
};
static std::unordered_map<const void*, MutexState> mutexes;
static std::unordered_map<const void*, uint64_t> conds;

void end() {
  {
    In in;
    for (auto t : threads)
      if (t != me && !t->done) fatal("harness", "thread " + t->name + " is still running");
    running = false;
    for (auto t : threads) {
      if (t != me) {
        real_join(t->pt, nullptr);
      }
      sem_destroy(&t->sem);
      if (t != me) delete t;
    }
    Thread* t0 = me;
    me = nullptr;
    delete t0;
    threads.clear();
    mutexes.clear();
    conds.clear();
    for (void* p : *quarantine) free(p);
    delete quarantine;
    delete freed;
    for (auto& p : *shadow) delete p.second;
    delete shadow;
    last_page = nullptr;
    delete objvc;
    quarantine = nullptr;
    shadow = nullptr;
  }
}

static void lock(const void* m, bool shared) {
  yield("lock");
  n_mutex++;
  MutexState* s;
  {
    In in;
    s = &mutexes[m];
    if (!freed->empty()) {
      auto it = freed->upper_bound((uintptr_t)m);
      if (it != freed->begin() && (uintptr_t)m < (--it)->first + it->second)
        violation("use-after-free", "a mutex is locked after it was freed, in " + frames(me));
    }
  }
  int id = me->id;
  auto can = [m, id, shared] {
    MutexState& s = mutexes[m];
    if (shared) return s.owner < 0;
    return (s.owner < 0 || s.owner == id) && s.readers == 0;
  };
  if (!shared && s->owner == id && s->depth > 0 &&
      ((const pthread_mutex_t*)m)->__data.__kind != PTHREAD_MUTEX_RECURSIVE_NP) {
    fatal("deadlock", "thread " + me->name + " locks a mutex it holds, in " + frames(me));
  }
  wait_until(can);
  {
    In in;
    MutexState& s2 = mutexes[m];
    if (shared)
      s2.readers++;
    else {
      s2.owner = id;
      s2.depth++;
    }
  }
  hb_acquire(m);
}
static void unlock(const void* m) {
  hb_release(m);
  {
    In in;
    MutexState& s = mutexes[m];
    if (s.owner == me->id) {
      if (--s.depth == 0) s.owner = -1;
    } else if (s.readers > 0) {
      s.readers--;
    } else {
      fatal("unlock", "a mutex is unlocked that is not locked, in " + frames(me));
    }
  }
  yield("unlock");
}

}  // namespace sim

using namespace sim;

// ---------------------------------------------------------------- seams by interposition
namespace sim {
std::map<std::string, std::string> io_faults;
static std::map<int, std::string> faulty_fds;
int64_t n_io_faults;
static const std::string* io_fault(const char* path) {
  if (!running || !me || io_faults.empty()) return nullptr;
  In in;
  const char* b = strrchr(path, '/');
  auto it = io_faults.find(b ? b + 1 : path);
  return it == io_faults.end() ? nullptr : &it->second;
}
}  // namespace sim

extern "C" {

// the disk: files that vanish between listing and opening, reads that fail
static FILE* faulty_open(const char* name, const char* path, const char* mode) {
  static std::map<std::string, FILE* (*)(const char*, const char*)> real;
  if (!real.count(name)) real[name] = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, name);
  const std::string* f = io_fault(path);
  if (f && *f == "vanish") {
    n_io_faults++;
    errno = ENOENT;
    return nullptr;
  }
  if (f && *f == "denied") {
    n_io_faults++;
    errno = EACCES;
    return nullptr;
  }
  FILE* r = real[name](path, mode);
  if (r && f) faulty_fds[fileno(r)] = *f;
  return r;
}
FILE* fopen(const char* path, const char* mode) { return faulty_open("fopen", path, mode); }
FILE* fopen64(const char* path, const char* mode) { return faulty_open("fopen64", path, mode); }
int fclose(FILE* f) {
  static int (*real)(FILE*) = nullptr;
  if (!real) real = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
  if (!faulty_fds.empty()) faulty_fds.erase(fileno(f));
  return real(f);
}
ssize_t read(int fd, void* buf, size_t n) {
  static ssize_t (*real)(int, void*, size_t) = nullptr;
  if (!real) real = (ssize_t(*)(int, void*, size_t))dlsym(RTLD_NEXT, "read");
  if (running && !faulty_fds.empty() && faulty_fds.count(fd)) {
    n_io_faults++;
    if (faulty_fds[fd] == "eio") {
      errno = EIO;
      return -1;
    }
    // short reads: one byte less than asked for, at least one
    if (faulty_fds[fd] == "short" && n > 1) n = n > 7 ? 7 : 1;
  }
  return real(fd, buf, n);
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  if (active()) {
    sim::lock(m, false);
    return 0;
  }
  if (!real_lock) resolve();
  return real_lock(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (active()) {
    In* p = nullptr;
    (void)p;
    sim::unlock(m);
    return 0;
  }
  if (!real_unlock) resolve();
  return real_unlock(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (active()) {
    yield("trylock");
    bool ok;
    {
      In in;
      MutexState& s = mutexes[m];
      ok = s.owner < 0 && s.readers == 0;
    }
    if (!ok) return EBUSY;
    sim::lock(m, false);
    return 0;
  }
  if (!real_trylock) resolve();
  return real_trylock(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (active()) sim::lock(m, true);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (active()) sim::lock(m, false);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (active()) sim::unlock(m);
  return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
  uint64_t n;
  {
    In in;
    n = conds[c];
  }
  sim::unlock(m);
  bool ok = wait_until([c, n] { return conds[c] != n; }, deadline);
  hb_acquire(c);
  sim::lock(m, false);
  return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (active()) return cond_wait(c, m, -1);
  abort();
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
  if (active()) {
    int64_t us = ts->tv_sec * 1000000LL + ts->tv_nsec / 1000;
    return cond_wait(c, m, us > opt.epoch_ms * 1000 ? us - opt.epoch_ms * 1000 : us);
  }
  abort();
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  return pthread_cond_clockwait(c, m, 0, ts);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (active()) {
    hb_release(c);
    In in;
    conds[c]++;
  }
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) { return pthread_cond_signal(c); }

struct Start {
  void* (*fn)(void*);
  void* arg;
};
static std::map<pthread_t, int>& simthreads() {
  static std::map<pthread_t, int> m;
  return m;
}
int pthread_create(pthread_t* pt, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (active()) {
    int id = spawn("thread", [fn, arg] { fn(arg); });
    In in;
    *pt = threads[id]->pt;
    simthreads()[*pt] = id;
    return 0;
  }
  resolve();
  return real_create(pt, a, fn, arg);
}
int pthread_join(pthread_t pt, void** r) {
  if (active()) {
    int id;
    {
      In in;
      id = simthreads().at(pt);
    }
    sim::join(id);
    return 0;
  }
  resolve();
  return real_join(pt, r);
}

int rand() { return active() ? int(draw() & 0x7fffffff) : 4; }
long random() { return active() ? long(draw() & 0x7fffffff) : 4; }
time_t time(time_t* t) {
  time_t v = time_t((opt.epoch_ms * 1000 + clock_us + wall_skew_us) / 1000000);
  if (t) *t = v;
  return v;
}
unsigned sleep(unsigned s) {
  if (active()) sleep_ms(1000LL * s);
  return 0;
}
int usleep(useconds_t us) {
  if (active()) wait_until(nullptr, clock_us + us);
  return 0;
}
int nanosleep(const struct timespec* ts, struct timespec*) {
  if (active()) wait_until(nullptr, clock_us + ts->tv_sec * 1000000LL + ts->tv_nsec / 1000);
  return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec* ts, struct timespec* r) { return nanosleep(ts, r); }

int __cxa_guard_acquire(long* g) {
  char* b = (char*)g;
  if (*b) {
    hb_acquire(g);
    return 0;
  }
  if (active()) {
    wait_until([b] { return b[1] == 0; });
    if (*b) {
      hb_acquire(g);
      return 0;
    }
  }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(long* g) {
  char* b = (char*)g;
  b[0] = 1;
  b[1] = 0;
  hb_release(g);
}
void __cxa_guard_abort(long* g) { ((char*)g)[1] = 0; }
}

namespace std {
namespace chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  return time_point(std::chrono::microseconds(clock_us));
}
system_clock::time_point system_clock::now() noexcept {
  // every call sees a later time, as on a real machine
  return time_point(std::chrono::duration_cast<duration>(
      std::chrono::microseconds(opt.epoch_ms * 1000 + clock_us + wall_skew_us + (running ? ++nsteps : 0))));
}
}  // namespace _V2
}  // namespace chrono
unsigned int random_device::_M_getval() { return running ? (unsigned)draw() : 7u; }
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
double random_device::_M_getentropy() const noexcept { return 32.0; }
}  // namespace std

// ---------------------------------------------------------------- memory
void* operator new(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (running && me && shadow) {
    In in;
    n_allocs++;
    forget((uintptr_t)p, n);
  }
  return p;
}
// exception objects do not come from operator new
extern "C" void* __cxa_allocate_exception(size_t n) noexcept {
  static void* (*real)(size_t) = nullptr;
  if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "__cxa_allocate_exception");
  void* p = real(n);
  if (running && me && shadow) {
    In in;
    forget((uintptr_t)p, n);
  }
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept {
  if (!p) return;
  if (active()) {
    In in;
    extern size_t malloc_usable(void*);
    size_t n = malloc_usable(p);
    if (freed->count((uintptr_t)p)) {
      violation("double-free", "memory is freed twice in " + frames(me));
      return;
    }
    (*freed)[(uintptr_t)p] = n;
    mark_freed((uintptr_t)p, n);
    quarantine->push_back(p);
    return;
  }
  free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#include <malloc.h>
size_t malloc_usable(void* p) { return malloc_usable_size(p); }

// ---------------------------------------------------------------- instrumentation callbacks
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {
  if (me && running) {
    internal++;
    me->stack.push_back(PC);
    internal--;
  }
}
void __tsan_func_exit() {
  if (me && running && !me->stack.empty()) me->stack.pop_back();
}
#define RW(N)                                                              \
  void __tsan_read##N(void* a) { access((uintptr_t)a, N, false, PC); }     \
  void __tsan_write##N(void* a) { access((uintptr_t)a, N, true, PC); }     \
  void __tsan_unaligned_read##N(void* a) { access((uintptr_t)a, N, false, PC); } \
  void __tsan_unaligned_write##N(void* a) { access((uintptr_t)a, N, true, PC); } \
  void __tsan_read_write##N(void* a) { access((uintptr_t)a, N, true, PC); } \
  void __tsan_unaligned_read_write##N(void* a) { access((uintptr_t)a, N, true, PC); } \
  void __tsan_volatile_read##N(void* a) { access((uintptr_t)a, N, false, PC); } \
  void __tsan_volatile_write##N(void* a) { access((uintptr_t)a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { if (n) access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { if (n) access((uintptr_t)a, n, true, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  if (n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); }
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  if (n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); }
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
  if (n) access((uintptr_t)d, n, true, PC);
  return memset(d, c, n);
}
#define ATOMIC(B, T)                                                                                          \
  T __tsan_atomic##B##_load(const volatile T* a, int) { hb_acquire((void*)a); return *a; }                    \
  void __tsan_atomic##B##_store(volatile T* a, T v, int) { *a = v; hb_release((void*)a); }                    \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { hb_acquire((void*)a); T o = *a; *a = v; hb_release((void*)a); return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { hb_acquire((void*)a); T o = *a; *a = o + v; hb_release((void*)a); return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { hb_acquire((void*)a); T o = *a; *a = o - v; hb_release((void*)a); return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { hb_acquire((void*)a); T o = *a; *a = o & v; hb_release((void*)a); return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { hb_acquire((void*)a); T o = *a; *a = o | v; hb_release((void*)a); return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { hb_acquire((void*)a); T o = *a; *a = o ^ v; hb_release((void*)a); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {                        \
    hb_acquire((void*)a); if (*a == *c) { *a = v; hb_release((void*)a); return 1; } *c = *a; return 0; }      \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int x, int y) {                      \
    return __tsan_atomic##B##_compare_exchange_strong(a, c, v, x, y); }                                       \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) {                              \
    hb_acquire((void*)a); T o = *a; if (o == c) { *a = v; hb_release((void*)a); } return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
