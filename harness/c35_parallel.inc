// C35 workload shared by two builds. With MON_EVENTS (ASan build): every hook call is logged through atomics and overlapping entries are
// flagged, with delays injected inside the hooks. Without (TSan build): the hooks touch plain fields only, so the only happens-before
// edges are the library's, and the race detector judges them.
#include "vm.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <time.h>
#include <sched.h>
#include "altruct/concurrency/concurrency.h"

namespace cc = altruct::concurrency;

namespace {
typedef std::string Str;
#ifdef MON_EVENTS
const bool events_build = true;
#else
const bool events_build = false;
#endif

enum kind { HAS, NEXT, CREATE, EXEC, EXEC_END, COLLECT, KINDS };
thread_local int tls_thread = 0; // assigned by the scenario on first use, per scenario
thread_local uint64_t tls_run = 0, tls_rng = 0;
std::atomic<uint64_t> run_counter{ 0 };

struct scenario {
    uint64_t run; int threads, jobs, delay; uint64_t seed; bool barrier;
#ifdef MON_EVENTS
    std::atomic<int> next_thread{ 0 }, in_provider{ 0 }, in_collector{ 0 }, in_factory{ 0 }, live_workers{ 0 }, started{ 0 }, executed{ 0 }, problems{ 0 }, barrier_timeouts{ 0 }, log_n{ 0 };
    std::vector<uint32_t> log; std::mutex problem_mutex; Str problem;
    int me() { if (tls_run != run) { tls_run = run; tls_thread = next_thread++; tls_rng = vm::mix64(seed * 977 + tls_thread); } return tls_thread; }
    void event(kind k) { int i = log_n++; if (i < (int)log.size()) log[i] = (uint32_t)(me() * 16 + k); }
    void bad(const Str& s) { if (problems++ == 0) { std::lock_guard<std::mutex> g(problem_mutex); problem = s; } }
    // a pause inside a hook, to let another thread in
    void pause(int where) { if (!delay) return; me(); tls_rng = vm::mix64(tls_rng + where); uint64_t x = tls_rng % 16; if (delay == 1) { if (x < 6) sched_yield(); } else if (delay == 2) { if (x == 0) { timespec t{ 0, 30000 }; nanosleep(&t, nullptr); } else if (x < 6) sched_yield(); } else { volatile int z = 0; for (int i = (int)(tls_rng >> 20) % 400; i > 0; i--) z = z + i; if (x < 2) sched_yield(); } }
#else
    void event(kind) {} void bad(const Str&) {}
    int plain_problems = 0;
    void pause(int where) { if (!delay) return; if (tls_run != run) { tls_run = run; tls_rng = vm::mix64(seed + (uint64_t)(uintptr_t)&tls_run); } tls_rng = vm::mix64(tls_rng + where); uint64_t x = tls_rng % 16; if (x < 5) sched_yield(); else if (x == 5 && delay == 2) { timespec t{ 0, 20000 }; nanosleep(&t, nullptr); } }
#endif
};
#ifdef MON_EVENTS
struct entry { std::atomic<int>& n; scenario& s; entry(std::atomic<int>& n, scenario& s, const char* what) : n(n), s(s) { if (n++ != 0) s.bad(Str(what) + " entered concurrently"); } ~entry() { n--; } };
#define ENTER(counter, what) entry guard_(s->counter, *s, what)
#else
#define ENTER(counter, what)
#endif

struct job_t { int id; std::vector<int> payload; };
struct result_t { int id; uint64_t value; std::vector<int> data; };
uint64_t work(const job_t& j) { uint64_t h = (uint64_t)j.id + 1; for (int x : j.payload) h = vm::mix64(h + (uint64_t)x); return h; }
job_t make_job(uint64_t seed, int id) { job_t j{ id, {} }; int n = (int)(vm::mix64(seed + id) % 5); for (int i = 0; i < n; i++) j.payload.push_back((int)(vm::mix64(seed + id * 31 + i) & 0xffff)); return j; }

struct provider {
    scenario* s; int pos = 0, asked = 0, over = 0; std::vector<int> scratch; // plain fields: not thread-safe by design
    std::thread::id asker; bool answer = false; int unpaired = 0;
    bool has_next_job() { ENTER(in_provider, "job provider"); s->event(HAS); asked++; scratch.push_back(pos); if (scratch.size() > 40) scratch.clear(); s->pause(1); asker = std::this_thread::get_id(); answer = pos < s->jobs; return answer; }
    job_t next_job() { ENTER(in_provider, "job provider"); s->event(NEXT); if (pos >= s->jobs) over++; if (!answer || asker != std::this_thread::get_id()) unpaired++; answer = false; int p = pos; s->pause(2); pos = p + 1; return make_job(s->seed, p); }
};
struct collector {
    scenario* s; std::vector<int> seen; std::vector<uint64_t> values; int count = 0, mismatched = 0; uint64_t sum = 0;
    void collect_result(const result_t& r, const job_t& j) { ENTER(in_collector, "result collector"); s->event(COLLECT); if (r.id != j.id || j.id < 0 || j.id >= (int)seen.size()) mismatched++; else seen[j.id]++; uint64_t t = sum; int n = count; s->pause(3); if (r.value != work(j) || r.data != j.payload) mismatched++; sum = t + r.value; count = n + 1; values.push_back(r.value); }
};
struct worker_state { scenario* s; int id; std::thread::id owner; bool used = false; int runs = 0, foreign = 0; bool busy = false;
#ifdef MON_EVENTS
    ~worker_state() { s->live_workers--; }
#endif
};
struct factory {
    scenario* s; int created = 0; std::vector<std::shared_ptr<worker_state>> kept; std::vector<int> ids;
    struct worker {
        std::shared_ptr<worker_state> w; std::vector<int> memory;
        result_t execute_job(const job_t& j) {
            scenario* s = w->s; s->event(EXEC); auto tid = std::this_thread::get_id();
            if (!w->used) { w->used = true; w->owner = tid; } else if (w->owner != tid) { w->foreign++; s->bad("a worker was used by two threads"); }
            if (w->busy) s->bad("a worker ran two jobs at once"); w->busy = true; memory.assign(8, j.id); s->pause(4);
#ifdef MON_EVENTS
            if (s->barrier) { s->started++; auto t0 = std::chrono::steady_clock::now(); while (s->started < s->jobs) { sched_yield(); if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(20)) { s->barrier_timeouts++; break; } } }
#endif
            result_t r{ j.id, work(j), j.payload }; if (memory != std::vector<int>(8, j.id)) s->bad("worker memory changed under it");
            w->busy = false; w->runs++;
#ifdef MON_EVENTS
            s->executed++;
#endif
            s->event(EXEC_END); return r;
        }
    };
    worker create_worker() { ENTER(in_factory, "worker provider"); s->event(CREATE); int k = created; ids.push_back(k); s->pause(5); auto w = std::make_shared<worker_state>(); w->s = s; w->id = k;
#ifdef MON_EVENTS
        s->live_workers++;
#endif
        created = k + 1; return worker{ w, {} }; }
};
struct bundle { scenario s; provider p; collector k; factory f; std::mutex m; std::condition_variable cv; bool done = false; int at_return_count = 0, at_return_live = 0, at_return_inside = 0; };
bool blocked_once = false;

void run_scenario(vm::Ctx& c, int threads, int jobs, int delay, bool barrier) {
    if (blocked_once) { c.checks(); return; } // a blocked call leaves threads behind; the verdict is in
    auto b = std::make_shared<bundle>(); auto& s = b->s; s.run = ++run_counter; s.threads = threads; s.jobs = jobs; s.delay = delay; s.seed = c.rng.u64(); s.barrier = barrier; b->p.s = b->k.s = b->f.s = &s; b->k.seen.assign(jobs, 0);
#ifdef MON_EVENTS
    s.log.assign(8192, 0);
#endif
    c.input("threads %d jobs %d delay %d%s", threads, jobs, delay, barrier ? " barrier" : "");
    std::thread t([b] {
        cc::parallel_execute(b->k, b->p, b->f, b->s.threads);
        b->at_return_count = b->k.count;
#ifdef MON_EVENTS
        b->at_return_live = b->s.live_workers; b->at_return_inside = b->s.in_provider + b->s.in_collector + b->s.in_factory;
#endif
        std::lock_guard<std::mutex> g(b->m); b->done = true; b->cv.notify_all();
    });
    { std::unique_lock<std::mutex> g(b->m); if (!b->cv.wait_for(g, std::chrono::seconds(40), [&] { return b->done; })) { blocked_once = true; t.detach(); new std::shared_ptr<bundle>(b); c.fail("parallel_execute:blocked", "parallel_execute did not return within 40 s"); } }
    t.join();
    int want_threads = threads > 1 ? threads : 1; c.eq(b->at_return_count, jobs, "results collected when the call returns"); c.eq(b->k.count, jobs, "results collected"); c.eq(b->p.pos, jobs, "jobs taken"); c.eq(b->p.over, 0, "jobs taken from an empty provider"); c.eq(b->p.unpaired, 0, "next_job without has_next_job of the same thread just before"); c.eq(b->k.mismatched, 0, "results delivered with their job"); for (int i = 0; i < jobs; i++) c.eq(b->k.seen[i], 1, "each job collected exactly once"); uint64_t sum = 0; for (int i = 0; i < jobs; i++) sum += work(make_job(s.seed, i)); c.eq(b->k.sum, sum, "sum of results"); c.eq(b->f.created, want_threads, "one worker per thread");
    c.event("jobs", jobs); c.event("threads", want_threads);
#ifdef MON_EVENTS
    if (s.problems) c.fail("monitor: " + s.problem, s.problem); c.eq((int)s.executed, jobs, "jobs executed"); c.eq((int)s.live_workers, 0, "workers left"); c.eq(b->at_return_live, 0, "workers left when the call returns"); c.eq(b->at_return_inside, 0, "hooks still running when the call returns"); c.eq((int)s.barrier_timeouts, 0, "jobs run in parallel"); c.ok(s.next_thread <= want_threads, "threads used");
    uint64_t h = 0; int n = std::min<int>(s.log_n, (int)s.log.size()), switches = 0; std::map<int, int> name; int last = -1, overlap = 0, active = 0; for (int i = 0; i < n; i++) { int th = (int)s.log[i] / 16, k = (int)s.log[i] % 16; if (!name.count(th)) { int z = (int)name.size(); name[th] = z; } if (th != last) switches++; last = th; if (k == EXEC && ++active > 1) overlap++; if (k == EXEC_END) active--; h = vm::mix64(h + (uint64_t)(name[th] * 16 + k + 1)); }
    c.event("logged events", n); c.event("thread switches in the log", switches); c.event("overlapping jobs", overlap); if ((int)name.size() > 1) { c.event("runs with several active threads"); c.nontrivial(h); }
#else
    c.nontrivial(s.seed);
#endif
}
}
