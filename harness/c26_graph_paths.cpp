// C26: shortest paths, spanning trees, orders, components, closures and 2-SAT against brute force on random graphs.
#include "vm.h"
#include <limits>
#include "altruct/algorithm/graph/dijkstra.h"
#include "altruct/algorithm/graph/floyd_warshall.h"
#include "altruct/algorithm/graph/prim_spanning_tree.h"
#include "altruct/algorithm/graph/topological_sort.h"
#include "altruct/algorithm/graph/tarjan_scc.h"
#include "altruct/algorithm/graph/transitive_closure.h"
#include "altruct/algorithm/graph/sat2.h"

using namespace altruct::graph;

namespace {
template<typename W> struct Edge { int u, v; W w; };
template<typename W> std::string show(int n, const std::vector<Edge<W>>& es) {
    std::string s = "n=" + std::to_string(n) + " [";
    for (size_t i = 0; i < es.size(); i++) { if (s.size() > 900) { s += "..."; break; } s += (i ? " " : "") + std::to_string(es[i].u) + ">" + std::to_string(es[i].v) + ":" + vm::str(es[i].w); }
    return s + "]";
}
// shapes: random, sparse, dense, layered, path with chords, star, cycle, disjoint blocks, relabelled at random
template<typename W, typename FW> std::vector<Edge<W>> gen(vm::Rng& r, int n, FW weight, bool acyclic = false) {
    std::vector<Edge<W>> es; if (n == 0) return es;
    std::vector<int> id(n); for (int i = 0; i < n; i++) id[i] = i; r.shuffle(id);
    auto add = [&](int a, int b) { if (acyclic) { if (a == b) return; if (a > b) std::swap(a, b); } es.push_back({ id[a], id[b], weight() }); };
    switch (r.below(7)) {
    case 0: { int m = (int)r.below(3 * n + 1); for (int i = 0; i < m; i++) add((int)r.below(n), (int)r.below(n)); break; }
    case 1: { int m = (int)r.below(n + 1); for (int i = 0; i < m; i++) add((int)r.below(n), (int)r.below(n)); break; }
    case 2: for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (r.coin(2, 3)) { add(a, b); if (n > 30 && r.coin()) b += (int)r.below(n / 8); } break;
    case 3: for (int i = 1; i < n; i++) add(i - 1, i); for (int k = (int)r.below(n / 2 + 2); k--;) add((int)r.below(n), (int)r.below(n)); break;
    case 4: for (int i = 1; i < n; i++) { if (r.coin()) add(0, i); else add(i, 0); } for (int k = (int)r.below(4); k--;) add((int)r.below(n), (int)r.below(n)); break;
    case 5: { int b = (int)r.range(1, 5); for (int i = 0; i < n; i++) for (int k = (int)r.below(4); k--;) { int j = i / b * b + (int)r.below(b); if (j < n) add(i, j); } for (int k = (int)r.below(3); k--;) add((int)r.below(n), (int)r.below(n)); break; }
    default: for (int i = 0; i < n; i++) add(i, (i + 1) % n); for (int k = (int)r.below(n + 1); k--;) add((int)r.below(n), (int)r.below(n)); break;
    }
    for (size_t k = r.below(3); k-- && !es.empty();) { auto e = es[r.below(es.size())]; e.w = weight(); es.push_back(e); } // parallel edges
    r.shuffle(es);
    return es;
}
int pick_n(vm::Ctx& c) { auto& r = c.rng; return r.coin(1, 10) ? (int)r.range(20, c.thorough ? 90 : 40) : (int)r.range(1, 9); }
template<typename W> graph<weighted_edge<W>> directed(int n, const std::vector<Edge<W>>& es) { graph<weighted_edge<W>> g(n); for (auto& e : es) g.add_edge(e.u, { e.v, e.w }); return g; }
template<typename W> std::vector<std::vector<char>> reach(int n, const std::vector<Edge<W>>& es) { // by at least one edge
    std::vector<std::vector<char>> r(n, std::vector<char>(n)); for (auto& e : es) r[e.u][e.v] = 1;
    for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (r[i][k]) for (int j = 0; j < n; j++) r[i][j] |= r[k][j];
    return r;
}
// Bellman-Ford; returns false on a negative cycle reachable from src
template<typename W> bool bellman(int n, const std::vector<Edge<W>>& es, int src, std::vector<W>& d, std::vector<char>& have) {
    d.assign(n, W(0)); have.assign(n, 0); have[src] = 1;
    for (int it = 0; it <= n; it++) { bool ch = false; for (auto& e : es) if (have[e.u] && (!have[e.v] || d[e.u] + e.w < d[e.v])) { d[e.v] = d[e.u] + e.w; have[e.v] = 1; ch = true; } if (!ch) return true; }
    return false;
}

template<typename W> void run_dijkstra(vm::Ctx& c, W inf, int wmax, W unit) {
    auto& r = c.rng; int n = pick_n(c);
    auto es = gen<W>(r, n, [&] { return W(r.below(wmax + 1)) * unit; }); int src = (int)r.below(n); bool und = r.coin(1, 3);
    if (und) { size_t m = es.size(); for (size_t i = 0; i < m; i++) es.push_back({ es[i].v, es[i].u, es[i].w }); }
    c.input("dijkstra src=%d %s", src, show(n, es).c_str());
    auto res = dijkstra(directed<W>(n, es), src, inf); c.eq((int)res.size(), n, "dijkstra_size");
    std::vector<W> d; std::vector<char> have; bellman(n, es, src, d, have);
    for (int v = 0; v < n; v++) {
        if (!have[v]) { c.eq(res[v].v, -1, "dijkstra_unreachable"); c.eq(res[v].w, inf, "dijkstra_unreachable_dist"); continue; }
        c.eq(res[v].w, d[v], "dijkstra_distance");
        if (v == src) { c.eq(res[v].v, src, "dijkstra_source"); continue; }
        int p = res[v].v; c.ok(p >= 0 && p < n, "dijkstra_pred_range"); bool edge = false; for (auto& e : es) edge |= e.u == p && e.v == v && d[p] + e.w == d[v]; c.ok(edge, "dijkstra_pred_edge");
        int s = 0, x = v; while (x != src && s <= n) x = res[x].v, s++; c.ok(s <= n, "dijkstra_pred_tree");
    }
    if (es.size() > 2) c.nontrivial_input();
}
template<typename W> void run_fw(vm::Ctx& c, W inf, W unit) {
    auto& r = c.rng; int n = r.coin(1, 20) ? (int)r.range(15, 40) : (int)r.range(0, 8); bool neg = r.coin();
    std::vector<W> pot(n); for (auto& p : pot) p = W((int)r.below(20)) * unit; // potentials give negative edges without negative cycles
    bool zero = r.coin(); auto es = gen<W>(r, n, [&] { return W((int)r.range(zero ? 0 : 1, 12)) * unit; });
    if (neg) for (auto& e : es) e.w = e.w + pot[e.u] - pot[e.v];
    c.input("floyd_warshall %s", show(n, es).c_str());
    auto res = floyd_warshall(directed<W>(n, es), inf); c.eq((int)res.size(), n, "fw_size");
    for (int s = 0; s < n; s++) {
        std::vector<W> d; std::vector<char> have; bellman(n, es, s, d, have);
        for (int v = 0; v < n; v++) {
            if (!have[v]) { c.eq(res[s][v].v, -1, "fw_unreachable"); c.eq(res[s][v].w, inf, "fw_unreachable_dist"); continue; }
            c.eq(res[s][v].w, d[v], "fw_distance");
            if (s == v) { c.eq(res[s][v].v, v, "fw_self"); continue; }
            int x = res[s][v].v; c.ok(x >= 0 && x < n, "fw_next_range"); bool edge = false; for (auto& e : es) edge |= e.u == s && e.v == x && e.w + res[x][v].w == d[v]; c.ok(edge, "fw_next_edge");
            if (!zero) { int k = 0; for (x = s; x != v && k <= n; k++) x = res[x][v].v; c.ok(k <= n, "fw_next_path"); }
        }
    }
    if (neg) c.event("fw_negative_weights"); if (es.size() > 2) c.nontrivial_input();
}
template<typename W> void run_prim(vm::Ctx& c, W inf, int lo, int hi, W unit) {
    auto& r = c.rng; int n = pick_n(c); auto es = gen<W>(r, n, [&] { return W((int)r.range(lo, hi)) * unit; }); int root = (int)r.below(n);
    c.input("prim root=%d %s", root, show(n, es).c_str());
    graph<weighted_edge<W>> g(n); for (auto& e : es) g.add_edge2(e.u, { e.v, e.w });
    auto res = prim_spanning_tree(g, root, inf); c.eq((int)res.size(), n, "prim_size");
    std::vector<int> f(n); for (int i = 0; i < n; i++) f[i] = i; auto find = [&](int x) { while (f[x] != x) x = f[x] = f[f[x]]; return x; };
    auto ks = es; std::stable_sort(ks.begin(), ks.end(), [](const Edge<W>& a, const Edge<W>& b) { return a.w < b.w; });
    std::vector<Edge<W>> used; for (auto& e : ks) { int a = find(e.u), b = find(e.v); if (a != b) f[a] = b, used.push_back(e); }
    W best = 0, got = 0; for (auto& e : used) if (find(e.u) == find(root)) best += e.w;
    for (int v = 0; v < n; v++) {
        if (find(v) != find(root)) { c.eq(res[v].v, -1, "prim_unreachable"); c.eq(res[v].w, inf, "prim_unreachable_weight"); continue; }
        if (v == root) { c.eq(res[v].v, root, "prim_root"); c.eq(res[v].w, W(0), "prim_root_weight"); continue; }
        int p = res[v].v; c.ok(p >= 0 && p < n && p != v, "prim_parent_range"); bool edge = false; for (auto& e : es) edge |= e.w == res[v].w && ((e.u == p && e.v == v) || (e.u == v && e.v == p)); c.ok(edge, "prim_edge");
        int s = 0, x = v; while (x != root && s <= n) x = res[x].v, s++; c.ok(s <= n, "prim_tree");
        got += res[v].w;
    }
    c.eq(got, best, "prim_total"); if (es.size() > 2) c.nontrivial_input();
}
} // namespace

UNIT(dijkstra, 8000, 150000, "one graph and source: distances equal Bellman-Ford, predecessor links form a shortest-path tree") {
    switch (c.rng.below(4)) {
    case 0: run_dijkstra<int>(c, 1000000000, 1, 1); break;
    case 1: run_dijkstra<int>(c, std::numeric_limits<int>::max(), 20, c.rng.coin() ? 1 : 1000000); break;
    case 2: run_dijkstra<long long>(c, std::numeric_limits<long long>::max(), 1000, 1000000000000LL); break;
    default: run_dijkstra<double>(c, std::numeric_limits<double>::infinity(), 50, 0.25); break;
    }
}
UNIT(floyd_warshall, 6000, 60000, "one graph without negative cycles: all distances equal Bellman-Ford, next links follow shortest paths") {
    switch (c.rng.below(3)) {
    case 0: run_fw<int>(c, 1000000000, 1); break;
    case 1: run_fw<long long>(c, std::numeric_limits<long long>::max(), 1000000000000LL); break;
    default: run_fw<double>(c, std::numeric_limits<double>::infinity(), 0.5); break;
    }
}
UNIT(prim, 8000, 150000, "one undirected graph and root: a spanning tree of the root's component with the weight found by Kruskal") {
    switch (c.rng.below(4)) {
    case 0: run_prim<int>(c, 1000000000, 0, 3, 1); break;
    case 1: run_prim<int>(c, 1000000000, 1, 40, 1); break;
    case 2: run_prim<int>(c, 1000000000, -20, 20, 1); break;
    default: run_prim<double>(c, std::numeric_limits<double>::infinity(), 0, 30, 0.25); break;
    }
}
UNIT(topological, 6000, 60000, "one acyclic graph: a permutation of the nodes with every edge going forward, transitive reduction") {
    auto& r = c.rng; int n = r.coin(1, 10) ? (int)r.range(10, 40) : (int)r.below(9); auto es = gen<int>(r, n, [&] { return 1; }, true); c.input("dag %s", show(n, es).c_str());
    auto g = directed<int>(n, es); auto deg = in_degrees(g); std::vector<int> wd(n); for (auto& e : es) wd[e.v]++; c.ok(deg == wd, "in_degrees");
    auto t = topological_sort(g); c.eq((int)t.size(), n, "topo_size"); std::vector<int> pos(n, -1); for (int i = 0; i < n; i++) { c.ok(t[i] >= 0 && t[i] < n && pos[t[i]] == -1, "topo_permutation"); pos[t[i]] = i; }
    for (auto& e : es) c.ok(pos[e.u] < pos[e.v], "topo_order");
    auto R = reach(n, es); auto red = transitive_reduction(g); c.eq(red.size(), n, "reduction_size");
    for (int u = 0; u < n; u++) {
        std::vector<int> w, got; for (int v = 0; v < n; v++) { if (!R[u][v]) continue; bool via = false; for (int x = 0; x < n; x++) via |= R[u][x] && R[x][v]; if (!via) w.push_back(v); }
        for (auto& e : red[u]) got.push_back(e.v); std::sort(got.begin(), got.end()); c.eq(got, w, "reduction");
    }
    auto red2 = transitive_reduction(transitive_closure(g)); c.ok(red2 == red, "reduction_of_closure");
    if (es.size() > 2) c.nontrivial_input();
}
UNIT(components, 8000, 100000, "one directed graph: strongly connected components in topological order and transitive closure equal mutual reachability") {
    auto& r = c.rng; int n = r.coin(1, 10) ? (int)r.range(10, 60) : (int)r.below(10); auto es = gen<int>(r, n, [&] { return 1; }); c.input("digraph %s", show(n, es).c_str());
    auto g = directed<int>(n, es); auto R = reach(n, es);
    auto cl = transitive_closure(g); c.eq(cl.size(), n, "closure_size");
    for (int u = 0; u < n; u++) { std::vector<int> w, got; for (int v = 0; v < n; v++) if (v != u && R[u][v]) w.push_back(v); for (auto& e : cl[u]) got.push_back(e.v); std::sort(got.begin(), got.end()); c.eq(got, w, "closure"); }
    auto scc = tarjan_scc(g); std::vector<int> id(n, -1); int total = 0;
    for (size_t i = 0; i < scc.size(); i++) { c.ok(!scc[i].empty(), "scc_nonempty"); for (int v : scc[i]) { c.ok(v >= 0 && v < n && id[v] == -1, "scc_partition"); id[v] = (int)i; total++; } }
    c.eq(total, n, "scc_covers");
    for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (u != v) c.ok((id[u] == id[v]) == (R[u][v] && R[v][u]), "scc_mutual");
    for (auto& e : es) c.ok(id[e.u] <= id[e.v], "scc_topological");
    if (es.size() > 2) c.nontrivial_input();
}
UNIT(sat2, 12000, 200000, "one 2-SAT instance with an optional partial assignment: satisfiable iff brute force finds a model, and the model satisfies it") {
    auto& r = c.rng; int n = (int)r.range(1, 9), m = (int)r.below(r.pick({3, 3 * n, 6 * n}) + 1);
    std::vector<std::pair<int, int>> cl; auto lit = [&] { return r.coin(1, 12) ? -1 : (int)r.below(2 * n); }; for (int i = 0; i < m; i++) cl.push_back({ lit(), lit() });
    std::vector<int> sol; if (r.coin()) { sol.assign(r.below(n + 4), -1); for (int& x : sol) if (r.coin(1, 4)) x = (int)r.below(2); }
    c.input("sat2 n=%d clauses=%s initial=%s", n, vm::str(cl).c_str(), vm::str(sol).c_str());
    auto init = sol; int need = 0; for (auto& k : cl) { if (k.first >= 0) need = std::max(need, k.first / 2 + 1); if (k.second >= 0) need = std::max(need, k.second / 2 + 1); }
    auto lt = [&](int l, unsigned a) { return l >= 0 && int(a >> (l / 2) & 1) == (l & 1); };
    bool sat = false, sat0 = false; for (unsigned a = 0; a < 1u << n; a++) { bool o = true; for (auto& k : cl) o &= lt(k.first, a) || lt(k.second, a); if (!o) continue; sat0 = true; bool f = true; for (int i = 0; i < (int)init.size() && i < n; i++) f &= init[i] == -1 || init[i] == int(a >> i & 1); sat |= f; }
    bool got = sat2(sol, cl); c.eq(got, sat, "sat2_satisfiable");
    if (got) {
        c.ok((int)sol.size() >= need, "sat2_size"); for (size_t i = 0; i < init.size(); i++) if (init[i] != -1) c.eq(sol[i], init[i], "sat2_respects_initial");
        for (auto& k : cl) { auto t = [&](int l) { return l >= 0 && sol[l / 2] == (l & 1); }; c.ok(t(k.first) || t(k.second), "sat2_model"); }
        for (int i = 0; i < need; i++) c.ok(sol[i] == 0 || sol[i] == 1, "sat2_assigned");
    }
    auto s2 = sat2(cl); if (!sat0) c.ok(s2.empty(), "sat2_unsat_empty"); else { c.ok((int)s2.size() >= need, "sat2_list_size"); for (auto& k : cl) { auto t = [&](int l) { return l >= 0 && s2[l / 2] == (l & 1); }; c.ok(t(k.first) || t(k.second), "sat2_list_model"); } }
    c.event(got ? "sat" : "unsat"); if (m > 1) c.nontrivial_input();
}
UNIT(large, 12, 60, "one graph of tens of thousands of nodes: deep paths and long cycles are handled without recursion") {
    auto& r = c.rng; int n = (int)r.range(20000, c.thorough ? 120000 : 40000); int kind = (int)(c.index % 3);
    c.input("large kind=%d n=%d seed case %llu", kind, n, (unsigned long long)c.index);
    std::vector<int> id(n); for (int i = 0; i < n; i++) id[i] = i; r.shuffle(id); graph<weighted_edge<int>> g(n);
    if (kind == 0) { // cycles of random length joined by forward edges
        std::vector<int> block(n); int b = 0; for (int i = 0; i < n;) { int l = (int)std::min<int64_t>(n - i, r.range(1, n / 3)); for (int k = 0; k < l; k++) { block[id[i + k]] = b; if (l > 1) g.add_edge(id[i + k], { id[i + (k + 1) % l], 1 }); } if (i) g.add_edge(id[r.below(i)], { id[i + r.below(l)], 1 }); i += l; b++; }
        auto s = tarjan_scc(g); c.eq((int)s.size(), b, "large_scc_count"); std::vector<int> at(n, -1); for (size_t i = 0; i < s.size(); i++) for (int v : s[i]) { c.eq(block[v], block[s[i][0]], "large_scc"); at[v] = (int)i; }
        for (int u = 0; u < n; u++) for (auto& e : g[u]) c.ok(at[u] <= at[e.v], "large_scc_order");
    } else if (kind == 1) { // a path with extra forward edges
        for (int i = 1; i < n; i++) g.add_edge(id[i - 1], { id[i], 1 }); for (int k = 0; k < n / 4; k++) { int a = (int)r.below(n), b = (int)r.below(n); if (a < b) g.add_edge(id[a], { id[b], 1 }); }
        auto t = topological_sort(g); c.ok(t == id, "large_topo");
        auto d = dijkstra(g, id[0], 1 << 30); std::vector<int> w(n, 1 << 30); w[id[0]] = 0; for (int i = 0; i < n; i++) for (auto& e : g[id[i]]) w[e.v] = std::min(w[e.v], w[id[i]] + 1); for (int v = 0; v < n; v++) c.eq(d[v].w, w[v], "large_dijkstra");
    } else { // chain of implications
        std::vector<std::pair<int, int>> cl; for (int i = 1; i < n; i++) cl.push_back({ 2 * id[i - 1], 2 * id[i] + 1 }); // id[i-1] -> id[i]
        bool force = r.coin(), deny = r.coin(); if (force) cl.push_back({ 2 * id[0] + 1, -1 }); if (deny) cl.push_back({ -1, 2 * id[n - 1] });
        std::vector<int> sol; bool got = sat2(sol, cl); c.eq(got, !(force && deny), "large_sat2"); if (got && force) for (int x : sol) c.eq(x, 1, "large_sat2_chain"); if (got && deny) for (int x : sol) c.eq(x, 0, "large_sat2_chain0");
    }
    c.nontrivial(vm::mix64(c.index * 77 + n));
}
