// C35: the same workload with plain, unsynchronised hook objects under ThreadSanitizer.
#include "c35_parallel.inc"

UNIT(races, 400, 12000, "one call with hook objects that hold plain fields only; every access the library does not order is a reported race") { auto& r = c.rng; int t = (int)r.pick({0, 1, 2, 2, 3, 4, 8}), n = (int)r.below(r.pick({1, 3, 8, 40, 200})); run_scenario(c, t, n, (int)r.below(3), false); }
namespace { struct sum_workers { int64_t made = 0; struct w { std::vector<int64_t> tmp; int64_t execute_job(const std::pair<int64_t, int64_t>& j) { tmp.clear(); for (int64_t i = j.first; i < j.second; i++) tmp.push_back(i * i % 1009); int64_t s = 0; for (auto x : tmp) s += x; return s; } }; w create_worker() { made++; return w(); } }; }
UNIT(library_parts_races, 150, 4000, "range_job_provider and add_result_collector driven by several threads") { auto& r = c.rng; int64_t lo = r.range(0, 500), hi = lo + (int64_t)r.below(3000), len = 1 + (int64_t)r.below(r.pick({3, 50, 4000})); int t = (int)r.pick({1, 2, 4, 8}); c.input("[%lld,%lld) by %lld on %d", (long long)lo, (long long)hi, (long long)len, t); int64_t want = 0; for (int64_t i = lo; i < hi; i++) want += i * i % 1009; cc::add_result_collector<int64_t> rc; cc::range_job_provider<int64_t> jp(lo, hi, len); sum_workers wp; cc::parallel_execute(rc, jp, wp, t); c.eq(rc.result, want, "parallel sum"); c.eq(wp.made, (int64_t)t, "workers"); c.nontrivial_input(); }
UNIT(lock_macro_races, 60, 1000, "plain counters under LOCK") { auto& r = c.rng; int t = 2 + (int)r.below(4), n = 20 + (int)r.below(100); std::mutex a; int64_t x = 0; std::vector<std::thread> v; for (int i = 0; i < t; i++) v.emplace_back([&] { for (int k = 0; k < n; k++) LOCK(a) { x++; } }); for (auto& q : v) q.join(); c.eq(x, (int64_t)t * n, "LOCK:counter"); c.nontrivial(c.index); }
