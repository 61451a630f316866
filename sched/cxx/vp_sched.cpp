// Explores the interleavings of the emitted program. Usage:
//   prog <dat-name> <input.json> <out.wtns> <expected.wtns | FAIL | ANY> <preemption bound> <max threads> <run limit>
// prints "OK runs=<n> points=<n> nodes=<n> threads=<n>" or "BAD <what> schedule=<choices>".
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

extern "C" int emitted_main(int, char **);

struct Choice { unsigned char n, taken, cost0; };  // cost0: choosing an alternative preempts the running thread
static const int MAXC = 1 << 16;
struct Shared { long runs, points, nodes; int maxth; int len; Choice c[MAXC]; int done; int bad; int kept; char what[400]; };
static Shared *S;
static int bound_, maxth_;
extern "C" int vp_max_threads() { return maxth_; }

namespace vps {
struct Fiber { ucontext_t ctx; char *stack; std::function<void()> f; bool done = false; int kind = 0; void *obj = nullptr; int target = -1; bool notified = false; };
static std::vector<Fiber *> T;
static std::vector<char *> stacks;
static int cur;
static std::map<void *, int> owner;          // locked mutexes
static std::set<void *> live;
static std::map<void *, std::vector<int>> waiting;
static int pos, preempted, prefix;
static const size_t STACK = 256 * 1024;
static bool over;

void fail(const char *what) {
  if (!S->bad) {
    S->bad = 1;
    snprintf(S->what, sizeof S->what, "%s (thread %d of %d)", what, cur, (int)T.size());
  }
  S->len = pos;
  _exit(7);
}
static int choose(int n, bool cost) {
  if (n < 1) abort();
  if (n == 1) return 0;
  if (pos >= MAXC) fail("too many scheduling points");
  if (pos < prefix) {
    if (S->c[pos].n != n) fail("internal: the replay of a schedule diverged");
  } else {
    S->c[pos].n = n > 250 ? 250 : n; S->c[pos].taken = 0; S->c[pos].cost0 = cost; S->nodes++;
  }
  S->points++;
  int k = S->c[pos].taken;
  if (k && S->c[pos].cost0) preempted++;
  pos++;
  S->kept = pos;
  return k;
}
static bool enabled(int i) {
  Fiber *f = T[i];
  if (f->done) return false;
  switch (f->kind) {
    case 0: return true;
    case 1: return !owner.count(f->obj);
    case 2: return T[f->target]->done;
    case 3: return f->notified;
  }
  return false;
}
static void schedule() {
  // the running thread first, then the others in order
  std::vector<int> en;
  bool self = enabled(cur);
  if (self) en.push_back(cur);
  for (int i = 0; i < (int)T.size(); i++) if (i != cur && enabled(i)) en.push_back(i);
  if (en.empty()) {
    std::ostringstream o;
    o << "deadlock:";
    for (size_t i = 0; i < T.size(); i++) if (!T[i]->done) o << " thread " << i << (T[i]->kind == 1 ? " waits for a mutex" : T[i]->kind == 2 ? " joins" : " waits for a condition");
    fail(o.str().substr(0, 380).c_str());
  }
  int k = 0;
  if (self && preempted >= bound_) k = 0;
  else k = choose(en.size(), self);
  if (en[k] == cur) return;
  int old = cur;
  cur = en[k];
  swapcontext(&T[old]->ctx, &T[cur]->ctx);
}
static void block(int kind, void *obj, int target) {
  Fiber *f = T[cur];
  f->kind = kind; f->obj = obj; f->target = target;
  schedule();
  T[cur]->kind = 0;
}
static void alive(void *o, const char *what) { if (!live.count(o)) fail(what); }
void born(void *o) { live.insert(o); }
void dead(void *o) {
  if (over) return;
  if (owner.count(o)) fail("a locked mutex was destroyed");
  if (waiting.count(o) && !waiting[o].empty()) fail("a condition variable was destroyed while a thread waits on it");
  live.erase(o);
}
void lock(void *m) {
  alive(m, "lock of a destroyed mutex");
  if (owner.count(m) && owner[m] == cur) fail("a thread locks a mutex that it holds");
  block(1, m, -1);
  alive(m, "lock of a destroyed mutex");
  owner[m] = cur;
}
bool try_lock(void *m) {
  alive(m, "lock of a destroyed mutex");
  schedule();
  if (owner.count(m)) return false;
  owner[m] = cur;
  return true;
}
void unlock(void *m) {
  alive(m, "unlock of a destroyed mutex");
  if (!owner.count(m) || owner[m] != cur) fail("unlock of a mutex that the thread does not hold");
  owner.erase(m);
  schedule();
}
void wait(void *cv, void *m) {
  alive(cv, "wait on a destroyed condition variable");
  if (!owner.count(m) || owner[m] != cur) fail("wait with a mutex that the thread does not hold");
  owner.erase(m);
  T[cur]->notified = false;
  waiting[cv].push_back(cur);
  block(3, cv, -1);
  block(1, m, -1);
  owner[m] = cur;
}
void notify(void *cv, bool all) {
  alive(cv, "notify on a destroyed condition variable");
  std::vector<int> &w = waiting[cv];
  if (all) { for (int i : w) T[i]->notified = true; w.clear(); }
  else if (!w.empty()) { int k = choose(w.size(), false); T[w[k]]->notified = true; w.erase(w.begin() + k); }
}
static void entry(int lo) {
  Fiber *f = T[lo];
  try { f->f(); } catch (...) { fail("uncaught exception in a thread"); }
  f->done = true;
  schedule();
  abort();
}
int spawn(std::function<void()> fn) {
  int id = T.size();
  Fiber *f = new Fiber;
  f->f = fn;
  if ((int)stacks.size() <= id) stacks.resize(id + 1, nullptr);
  if (!stacks[id]) stacks[id] = (char *)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  f->stack = stacks[id];
  getcontext(&f->ctx);
  f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = STACK; f->ctx.uc_link = 0;
  makecontext(&f->ctx, (void (*)())entry, 1, id);
  T.push_back(f);
  if ((int)T.size() > S->maxth) S->maxth = T.size();
  schedule();
  return id;
}
void join(int t) {
  if (!T[t]->done) block(2, nullptr, t);
  else schedule();
}
static void run_once(int len, int argc, char **argv) {
  for (Fiber *f : T) delete f;
  T.clear(); owner.clear(); live.clear(); waiting.clear();
  pos = 0; preempted = 0; prefix = len; over = false;
  Fiber *m = new Fiber; T.push_back(m); cur = 0;
  emitted_main(argc, argv);
  over = true;
}
}

static std::string slurp(const char *p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }

// next schedule in depth-first order; false when all are done
static bool advance() {
  for (int i = S->len - 1; i >= 0; i--) {
    if (S->c[i].taken + 1 < S->c[i].n) { S->c[i].taken++; S->len = i + 1; return true; }
  }
  return false;
}
static std::string schedule_text() {
  std::ostringstream o;
  for (int i = 0; i < S->len; i++) o << (i ? "," : "") << (int)S->c[i].taken;
  return o.str();
}

int main(int argc, char **argv) {
  if (argc < 8) return 3;
  S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  bound_ = atoi(argv[5]); maxth_ = atoi(argv[6]);
  long limit = atol(argv[7]);
  bool mustfail = !strcmp(argv[4], "FAIL"), any = !strcmp(argv[4], "ANY");
  std::string want = mustfail ? "" : slurp(argv[4]);
  char *ea[4] = {argv[1], argv[2], argv[3], 0};
  S->len = 0; S->done = 0;
  while (!S->done) {
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      alarm(120);
      int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
      for (int n = 0; n < (mustfail ? 1 : 400); n++) {
        int len = S->len;
        unlink(argv[3]);
        S->kept = 0; S->runs++;
        vps::run_once(len, 3, ea);
        S->len = vps::pos;
        if (mustfail) _exit(8);
        if (!any && slurp(argv[3]) != want) { S->bad = 1; snprintf(S->what, sizeof S->what, "the witness is not the expected one"); _exit(7); }
        if (S->runs >= limit) { S->bad = 2; _exit(0); }
        if (!advance()) { S->done = 1; _exit(0); }
      }
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    if (mustfail) {
      if (S->bad) { printf("BAD %s schedule=%s\n", S->what, schedule_text().c_str()); return 1; }
      if (WIFEXITED(st) && WEXITSTATUS(st) == 8) { printf("BAD accepted an input that must be refused schedule=%s\n", schedule_text().c_str()); return 1; }
      S->len = S->kept;   // aborted or exited: refused, as expected
      if (S->runs >= limit) { printf("LIMIT runs=%ld\n", S->runs); return 2; }
      if (!advance()) S->done = 1;
      continue;
    }
    if (S->bad == 2) { printf("LIMIT runs=%ld\n", S->runs); return 2; }
    if (S->bad || !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      char buf[64] = "";
      if (!S->bad) S->len = S->kept;
      if (!S->bad) snprintf(buf, sizeof buf, "the program ended with status %d", st);
      printf("BAD %s schedule=%s\n", S->bad ? S->what : buf, schedule_text().c_str());
      return 1;
    }
  }
  printf("OK runs=%ld points=%ld nodes=%ld threads=%d\n", S->runs, S->points, S->nodes, S->maxth);
  return 0;
}
