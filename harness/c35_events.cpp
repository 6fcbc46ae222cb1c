// C35: recorded event logs of parallel_execute under injected delays.
#define MON_EVENTS 1
#include "c35_parallel.inc"

UNIT(executions, 3000, 60000, "one call: threads -1..16, jobs 0..200, a delay profile injected into provider, worker and collector; distinct cases are distinct interleavings of the recorded hook events") { auto& r = c.rng; int t = (int)r.pick({-1, 0, 1, 2, 2, 3, 4, 4, 8, 16}), n = (int)r.below(r.pick({1, 3, 8, 40, 200})); run_scenario(c, t, n, (int)r.below(4), false); }
UNIT(parallelism, 200, 6000, "as many jobs as threads, each waiting until all are running: the call must run them at the same time") { auto& r = c.rng; int t = (int)r.pick({1, 2, 3, 4, 8, 12}); run_scenario(c, t, t, (int)r.below(4), true); }
UNIT(job_ranges, 20000, 2000000, "an integer range and a step, up to the ends of the type: the jobs partition the range in order") {
    auto& r = c.rng; auto go = [&](auto z, const char* type) { typedef decltype(z) I; const I mx = std::numeric_limits<I>::max(), mn = std::numeric_limits<I>::min(); I lo = std::is_signed<I>::value ? (I)r.edgy((int64_t)mn, (int64_t)mx) : (I)r.edgyu((uint64_t)mx); vm::i128 width = (vm::i128)mx - lo; if (width > (vm::i128)mx) width = (vm::i128)mx; I hi = (I)(lo + (vm::i128)r.below((uint64_t)std::min<vm::i128>(width, r.coin() ? 50 : (vm::i128)1 << 62) + 1)); if (r.coin(1, 6)) hi = (I)(lo + width);
        uint64_t w = (uint64_t)((vm::i128)hi - lo); I len = (I)std::max<uint64_t>(1, w / (1 + r.below(60)) + r.below(3)); if ((vm::i128)len <= 0) len = 1; if (r.coin(1, 8)) len = mx; if (w / (uint64_t)len > 300) len = (I)(w / 300 + 1); if (r.coin(1, 10)) std::swap(lo, hi); c.input("%s [%s,%s) by %s", type, vm::str(lo).c_str(), vm::str(hi).c_str(), vm::str(len).c_str());
        cc::range_job_provider<I> p(lo, hi, len); vm::i128 at = lo; int n = 0; while (p.has_next_job()) { std::pair<I, I> j = p.next_job(); if (++n > 1000) c.fail("range_job_provider:termination", "too many jobs"); c.eq((vm::i128)j.first, at, "range_job_provider:start"); vm::i128 e = std::min<vm::i128>(at + (vm::i128)len, (vm::i128)hi); c.eq((vm::i128)j.second, e, "range_job_provider:end"); at = e; } c.ok(lo >= hi ? n == 0 : at == (vm::i128)hi, "range_job_provider:covers the range"); c.ok(!p.has_next_job(), "range_job_provider:stays empty"); c.event("range jobs", n); if (n > 1) c.nontrivial_input(); };
    switch (r.below(5)) { case 0: go(int(), "int"); break; case 1: go(uint32_t(), "unsigned"); break; case 2: go(uint64_t(), "uint64"); break; case 3: go(int8_t(), "int8"); break; default: go(int64_t(), "int64"); }
}
namespace { struct sum_workers { struct w { std::vector<int64_t> tmp; int64_t execute_job(const std::pair<int64_t, int64_t>& j) { tmp.clear(); for (int64_t i = j.first; i < j.second; i++) tmp.push_back(i * i % 1009); int64_t s = 0; for (auto x : tmp) s += x; return s; } }; w create_worker() { return w(); } }; }
UNIT(library_parts, 300, 10000, "a sum over a range computed by range_job_provider, workers and add_result_collector on several threads") { auto& r = c.rng; int64_t lo = r.range(-0, 500), hi = lo + (int64_t)r.below(3000), len = 1 + (int64_t)r.below(r.pick({3, 50, 4000})); int t = (int)r.pick({0, 1, 2, 4, 8}); c.input("[%lld,%lld) by %lld on %d", (long long)lo, (long long)hi, (long long)len, t); int64_t want = 0; for (int64_t i = lo; i < hi; i++) want += i * i % 1009; cc::add_result_collector<int64_t> rc; cc::range_job_provider<int64_t> jp(lo, hi, len); sum_workers wp; cc::parallel_execute(rc, jp, wp, t); c.eq(rc.result, want, "parallel sum"); c.nontrivial_input(); }
UNIT(lock_macro, 100, 3000, "threads incrementing plain counters under LOCK, nested over two mutexes, leaving by continue, return and exceptions") {
    auto& r = c.rng; int t = 2 + (int)r.below(5), n = 50 + (int)r.below(300); c.input("threads %d rounds %d", t, n); std::mutex a, b; int64_t x = 0, y = 0, once = 0, bad = 0; std::atomic<int> inside{ 0 };
    std::vector<std::thread> v; for (int i = 0; i < t; i++) v.emplace_back([&, i] { for (int k = 0; k < n; k++) {
        LOCK(a) { if (inside++) bad++; once++; int64_t z = x; if (k % 16 == i) sched_yield(); x = z + 1; inside--; if (k % 3 == 0) continue; LOCK(b) { y++; } }
        try { LOCK(b) { y++; if (k % 5 == 0) throw 1; } } catch (int) {} [&] { LOCK(b) { y++; return; } }(); } });
    for (auto& q : v) q.join(); int64_t third = (n + 2) / 3; c.eq(x, (int64_t)t * n, "LOCK:counter"); c.eq(once, (int64_t)t * n, "LOCK:body runs once"); c.eq(bad, (int64_t)0, "LOCK:mutual exclusion"); c.eq(y, (int64_t)t * (n - third) + 2 * (int64_t)t * n, "LOCK:nested"); c.ok(a.try_lock(), "LOCK:released"); a.unlock(); c.ok(b.try_lock(), "LOCK:released"); b.unlock(); c.event("locked sections", 4 * t * n); c.nontrivial_input();
}
