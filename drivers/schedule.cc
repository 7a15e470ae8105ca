#include <condition_variable>
#include <dirent.h>
#include <mutex>
#include <thread>
#include "drv.h"
#include "lsmdb/env.h"
using namespace lsmdb; using namespace drv;
#if !__has_feature(thread_sanitizer)
#include <dlfcn.h>
#include <pthread.h>
#include <atomic>
// a condition variable may wake up spuriously: some untimed waits do so
static std::atomic<unsigned> waits{0};
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
  if (real && waits++ % 3) return real(c, m);
  pthread_mutex_unlock(m); usleep(50); pthread_mutex_lock(m); return 0;
}
#endif
// Everything observed by the callbacks, under one lock of the driver's own.
static std::mutex mu; static std::condition_variable cv;
struct Seen { uint64_t fn; void* arg; };
static std::vector<Seen> seen; static std::thread::id worker; static bool have_worker = false, two = false, overlap = false; static int inside = 0;
static int threads() { int n = 0; DIR* d = opendir("/proc/self/task"); while (d && readdir(d)) n++; if (d) closedir(d); return n - 2; }
static void record(uint64_t fn, void* arg) {
  std::unique_lock<std::mutex> l(mu);
  if (!have_worker) { worker = std::this_thread::get_id(); have_worker = true; }
  if (worker != std::this_thread::get_id()) two = true;
  if (inside++) overlap = true;
  seen.push_back({fn, arg});
  l.unlock(); if (!(fn & 7)) std::this_thread::yield(); l.lock();
  inside--; cv.notify_all();
}
static void await(size_t n) {
  std::unique_lock<std::mutex> l(mu);
  bool ok = cv.wait_for(l, std::chrono::seconds(5), [&] { return seen.size() >= n; });
  CHECK(ok, "every scheduled item is run (waited 5 s; a lost item or a lost wake-up)");
}
static void settle() { if (rnd(2)) usleep((unsigned)rnd(800)); std::lock_guard<std::mutex> l(mu); CHECK(!two, "one worker thread"); CHECK(!overlap, "items do not overlap"); }
int main(int c, char** v) {
  init(c, v);
  Env* env = Env::Default();
  std::thread([] {}).join(); usleep(20000);
  bool first = true; int base = threads();
  do {
    g_runs++; { std::lock_guard<std::mutex> l(mu); seen.clear(); }
    int kind = first ? 1 : (int)rnd(4); char b[80];
    if (kind == 0) {        // one item at a time, from an idle worker
      int n = 1 + (int)rnd(30); snprintf(b, 80, "%d items, each after the one before has run", n); g_input = b;
      for (int i = 0; i < n; i++) {
        void* a = (void*)(uintptr_t)rnd(); env->Schedule([i](void* x) { record((uint64_t)i, x); }, a); await((size_t)i + 1);
        { std::lock_guard<std::mutex> l(mu); CHECK(seen.size() == (size_t)i + 1 && seen[i].fn == (uint64_t)i && seen[i].arg == a, "the item runs once with its argument"); }
        if (!rnd(4)) usleep(60);
      }
    } else if (kind == 1) { // several threads
      int T = 2 + (int)rnd(5), n = 1 + (int)rnd(40); snprintf(b, 80, "%d threads scheduling %d items each", T, n); g_input = b;
      std::vector<std::thread> ts; bool slow = rnd(2);
      for (int t = 0; t < T; t++) ts.emplace_back([=] {
        for (int i = 0; i < n; i++) { uint64_t id = (uint64_t)t * 1000 + (uint64_t)i; env->Schedule([id](void* x) { record(id, x); }, (void*)(uintptr_t)(id * 3 + 1)); if (slow && i % 3 == 0) std::this_thread::yield(); }
      });
      for (auto& t : ts) t.join();
      await((size_t)T * n); settle();
      std::lock_guard<std::mutex> l(mu); CHECK(seen.size() == (size_t)T * n, "each item runs exactly once");
      std::vector<int> nxt((size_t)T, 0);
      for (auto& s : seen) { CHECK(s.arg == (void*)(uintptr_t)(s.fn * 3 + 1), "with its own argument"); CHECK((int)(s.fn % 1000) == nxt[s.fn / 1000]++, "in the order scheduled"); }
    } else if (kind == 2) { // a burst behind a blocked worker: strict order, and scheduling does not wait for running work
      int n = 1 + (int)rnd(60); snprintf(b, 80, "%d items queued behind a blocked one", n); g_input = b;
      bool go = false; bool* g = &go;
      env->Schedule([g](void* x) { { std::unique_lock<std::mutex> l(mu); cv.wait_for(l, std::chrono::seconds(5), [&] { return *g; }); } record(0, x); }, nullptr);
      std::mutex m2; std::condition_variable c2; bool sched = false;
      std::thread th([&] { for (int i = 1; i <= n; i++) env->Schedule([i](void* x) { record((uint64_t)i, x); }, (void*)(uintptr_t)i); std::lock_guard<std::mutex> l(m2); sched = true; c2.notify_all(); });
      { std::unique_lock<std::mutex> l(m2); CHECK(c2.wait_for(l, std::chrono::seconds(3), [&] { return sched; }), "Schedule does not wait for running work"); }
      th.join(); { std::lock_guard<std::mutex> l(mu); CHECK(seen.empty(), "nothing overtakes the running item"); go = true; cv.notify_all(); }
      await((size_t)n + 1); settle();
      std::lock_guard<std::mutex> l(mu); CHECK(seen.size() == (size_t)n + 1, "each item runs exactly once");
      for (size_t i = 0; i < seen.size(); i++) CHECK(seen[i].fn == i && seen[i].arg == (void*)(uintptr_t)i, "in order, with its argument");
    } else {                // items scheduling items
      int n = 1 + (int)rnd(20); snprintf(b, 80, "a chain of %d items each scheduling the next", n); g_input = b;
      struct Chain { Env* e; int n; void go(int i) { e->Schedule([this, i](void* x) { if (i + 1 < n) go(i + 1); record((uint64_t)i, x); }, this); } } ch{env, n};
      ch.go(0); await((size_t)n); settle();
      std::lock_guard<std::mutex> l(mu); CHECK(seen.size() == (size_t)n, "each item runs exactly once");
      for (size_t i = 0; i < seen.size(); i++) CHECK(seen[i].fn == i && seen[i].arg == &ch, "in order");
    }
    int now = threads(); 
    // joined threads may linger in /proc for a moment
    for (int k = 0; k < 200 && now != base + 1; k++) { usleep(1000); now = threads(); }
    CHECK(now == base + 1 , "exactly one worker thread was started");
    first = false;
  } while (more());
  done(); fflush(stdout); _exit(0);
}
