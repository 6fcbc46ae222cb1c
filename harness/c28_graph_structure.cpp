// C28: traversal, chains, bridges, articulation points, blocks, chromatic polynomials, tree decompositions against brute force.
#include "vm.h"
#include <functional>
#include <limits>
#include "altruct/algorithm/graph/iterative_dfs.h"
#include "altruct/algorithm/graph/chain_decomposition.h"
#include "altruct/algorithm/graph/lowest_common_ancestor.h"
#include "altruct/algorithm/graph/heavy_light_decomposition.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/algorithm/graph/chromatic_polynomial.h"

using namespace altruct::graph;
using namespace altruct::math;

namespace {
typedef std::vector<std::pair<int, int>> Edges;
std::string show(int n, const Edges& es) { std::string s = "n=" + std::to_string(n); for (auto& e : es) { if (s.size() > 900) { s += "..."; break; } s += " " + std::to_string(e.first) + "-" + std::to_string(e.second); } return s; }
// simple undirected graphs: random, blocks glued at vertices, joined by bridges, cacti, trees, several components
Edges simple_graph(vm::Rng& r, int n) {
    std::set<std::pair<int, int>> s; std::vector<int> id(n); for (int i = 0; i < n; i++) id[i] = i; r.shuffle(id);
    auto add = [&](int a, int b) { if (a == b) return; a = id[a], b = id[b]; if (a > b) std::swap(a, b); s.insert({ a, b }); };
    if (n > 1) switch (r.below(6)) {
    case 0: { int m = (int)r.below(n * (n - 1) / 2 + 1); while (m--) add((int)r.below(n), (int)r.below(n)); break; }
    case 1: { int m = (int)r.below(2 * n); while (m--) add((int)r.below(n), (int)r.below(n)); break; }
    case 2: for (int i = 1; i < n; i++) if (!r.coin(1, 8)) add(i, (int)r.below(i)); for (int k = (int)r.below(3); k--;) add((int)r.below(n), (int)r.below(n)); break;
    case 3: case 4: for (int i = 0; i < n;) { // cycles with chords hanging on earlier vertices, by a shared vertex or by a bridge
                int l = (int)std::min<int64_t>(n - i, r.range(1, 6)); int a = i ? (int)r.below(i) : -1; if (r.coin(1, 8)) a = -1;
                for (int k = 1; k < l; k++) add(i + k - 1, i + k); if (l > 2 && r.coin(4, 5)) { add(i, i + l - 1); for (int k = (int)r.below(3); k--;) add(i + (int)r.below(l), i + (int)r.below(l)); }
                if (a >= 0) { add(a, i); if (r.coin(2, 3)) add(a, i + l - 1); } i += l; } break;
    default: { int b = (int)r.range(2, 5); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (i / b == j / b && r.coin(4, 5)) add(i, j); for (int i = b; i < n; i += b) if (r.coin(3, 4)) add(i, (int)r.below(i)); break; }
    }
    Edges es(s.begin(), s.end()); r.shuffle(es); for (auto& e : es) if (r.coin()) std::swap(e.first, e.second); return es;
}
template<typename E = edge> graph<E> build(int n, const Edges& es) { graph<E> g(n); for (auto& e : es) g.add_edge2(e.first, e.second); return g; }
int components(int n, const Edges& es, int skip_v = -1, int skip_e = -1) {
    std::vector<int> f(n); for (int i = 0; i < n; i++) f[i] = i; std::function<int(int)> find = [&](int x) { while (f[x] != x) x = f[x] = f[f[x]]; return x; };
    int c = n - (skip_v >= 0); for (int i = 0; i < (int)es.size(); i++) { if (i == skip_e || es[i].first == skip_v || es[i].second == skip_v) continue; int a = find(es[i].first), b = find(es[i].second); if (a != b) f[a] = b, c--; }
    return c;
}
// blocks of at least three vertices as sorted vertex sets, by the classic low-point algorithm over edges
std::set<std::vector<int>> blocks(int n, const Edges& es) {
    std::vector<std::vector<std::pair<int, int>>> a(n); for (int i = 0; i < (int)es.size(); i++) a[es[i].first].push_back({ es[i].second, i }), a[es[i].second].push_back({ es[i].first, i });
    std::vector<int> in(n, 0), low(n, 0), st; int t = 0; std::set<std::vector<int>> res;
    std::function<void(int, int)> dfs = [&](int u, int pe) {
        in[u] = low[u] = ++t;
        for (auto& x : a[u]) { if (x.second == pe) continue; int v = x.first;
            if (!in[v]) { st.push_back(x.second); dfs(v, x.second); low[u] = std::min(low[u], low[v]); if (low[v] >= in[u]) { std::set<int> b; int e; do { e = st.back(); st.pop_back(); b.insert(es[e].first); b.insert(es[e].second); } while (e != x.second); if (b.size() > 2) res.insert(std::vector<int>(b.begin(), b.end())); } }
            else if (in[v] < in[u]) { st.push_back(x.second); low[u] = std::min(low[u], in[v]); } }
    };
    for (int i = 0; i < n; i++) if (!in[i]) dfs(i, -1);
    return res;
}
// chromatic polynomial at k, from the numbers of partitions into independent sets
std::vector<__int128> independent_partitions(int n, const Edges& es) {
    std::vector<unsigned> ad(n, 0); for (auto& e : es) ad[e.first] |= 1u << e.second, ad[e.second] |= 1u << e.first; unsigned full = (1u << n) - 1;
    std::vector<char> ind(full + 1, 1); for (unsigned m = 0; m <= full; m++) for (int i = 0; i < n; i++) if ((m >> i & 1) && (ad[i] & m)) { ind[m] = 0; break; }
    std::vector<std::vector<__int128>> d(full + 1, std::vector<__int128>(n + 1, 0)); d[0][0] = 1;
    for (unsigned m = 1; m <= full; m++) { unsigned lo = m & (0u - m), rest = m ^ lo; for (unsigned s = rest;; s = (s - 1) & rest) { if (ind[s | lo]) for (int j = 0; j < n; j++) d[m][j + 1] += d[rest ^ s][j]; if (!s) break; } }
    return d[full];
}
__int128 colourings(const std::vector<__int128>& a, int k) { __int128 s = 0; for (int j = 0; j < (int)a.size(); j++) { __int128 f = 1; for (int i = 0; i < j; i++) f *= k - i; s += a[j] * f; } return s; }
Edges forest(vm::Rng& r, int n, int kind, int cut) {
    Edges es; std::vector<int> id(n); for (int i = 0; i < n; i++) id[i] = i; r.shuffle(id);
    for (int i = 1; i < n; i++) { if (cut && r.coin(1, cut)) continue; int p; switch (kind) { case 0: p = (int)r.below(i); break; case 1: p = i - 1; break; case 2: p = 0; break; case 3: p = (i - 1) / 2; break; case 4: p = (int)std::max<int64_t>(0, i - 1 - (int64_t)r.below(4)); break; default: p = i % 2 ? i - 1 : std::max(0, i - 2); break; } es.push_back({ id[i], id[p] }); if (r.coin()) std::swap(es.back().first, es.back().second); }
    r.shuffle(es); return es;
}
struct Tree { std::vector<int> par, dep, root, size, order; };
template<typename E> Tree rooted(const graph<E>& g) { // roots are the smallest node of every tree
    int n = g.size(); Tree t; t.par.assign(n, -1); t.dep.assign(n, -1); t.root.assign(n, -1); t.size.assign(n, 1);
    for (int o = 0; o < n; o++) if (t.dep[o] < 0) { t.dep[o] = 0; t.root[o] = o; size_t h = t.order.size(); t.order.push_back(o); while (h < t.order.size()) { int u = t.order[h++]; for (auto& e : g[u]) if (t.dep[e.v] < 0) t.dep[e.v] = t.dep[u] + 1, t.par[e.v] = u, t.root[e.v] = o, t.order.push_back(e.v); } }
    for (int i = n - 1; i >= 0; i--) if (t.par[t.order[i]] >= 0) t.size[t.par[t.order[i]]] += t.size[t.order[i]];
    return t;
}
int naive_lca(const Tree& t, int u, int v) { if (t.root[u] != t.root[v]) return -1; while (u != v) { if (t.dep[u] < t.dep[v]) std::swap(u, v); u = t.par[u]; } return u; }
} // namespace

UNIT(dfs, 8000, 100000, "one directed graph, visitor that refuses some nodes, optional source: the event stream equals a recursive traversal") {
    auto& r = c.rng; int n = (int)r.below(r.coin(1, 8) ? 40 : 9); graph<edge> g(n); if (n) { int m = (int)r.below(3 * n + 1); while (m--) g.add_edge((int)r.below(n), (int)r.below(n)); }
    unsigned deny = (unsigned)r.pick({0, 0, 4, 2}); uint64_t salt = r.below(1 << 30); int src = n && r.coin(1, 3) ? (int)r.below(n) : -1; c.input("dfs src=%d deny=%u salt=%llu n=%d adj=%s", src, deny, (unsigned long long)salt, n, [&] { std::string s; for (auto& l : g.adjl) { s += "{"; for (auto& e : l) s += std::to_string(e.v) + " "; s += "}"; } return s; }().c_str());
    typedef std::vector<int> Ev; std::vector<Ev> want, got; auto enter = [&](int p, int v) { return !deny || vm::mix64(salt + p * 1000 + v) % deny != 0; };
    std::vector<char> vis(n, 0); std::function<void(int, int, int)> rec = [&](int o, int u, int d) { vis[u] = 1; for (auto& e : g[u]) if (!vis[e.v]) { want.push_back({ o, u, e.v, d + 1 }); if (enter(u, e.v)) rec(o, e.v, d + 1); } want.push_back({ o, u, -1, d + 1 }); };
    for (int o = src < 0 ? 0 : src; o < (src < 0 ? n : src + 1); o++) if (!vis[o]) { want.push_back({ o, -1, o, 0 }); if (enter(-1, o)) rec(o, o, 0); }
    auto visit = [&](int root, int parent, int node, int depth) { got.push_back({ root, parent, node, depth }); return node == -1 ? bool(salt & 1) : enter(parent, node); };
    if (src < 0) iterative_dfs(g, visit); else iterative_dfs(g, visit, src);
    c.eq(got, want, "dfs_events"); c.event("dfs_events", got.size());
    std::vector<int> wp(n, -1); std::vector<char> v2(n, 0); std::function<void(int)> rp = [&](int u) { v2[u] = 1; for (auto& e : g[u]) if (!v2[e.v]) { wp[e.v] = u; rp(e.v); } }; for (int o = 0; o < n; o++) if (!v2[o]) rp(o); c.eq(parents(g), wp, "parents");
    if (want.size() > 3) c.nontrivial_input();
}
UNIT(biconnectivity, 12000, 200000, "one simple undirected graph: chains, bridges, articulation points, blocks and block-cut tree equal brute force") {
    auto& r = c.rng; int n = (int)r.below(r.coin(1, 10) ? 30 : 10); auto es = simple_graph(r, n); c.input("graph %s", show(n, es).c_str());
    auto g = build(n, es); biconnectivity<edge> b(g); int C = components(n, es);
    std::set<std::pair<int, int>> br, got; for (int i = 0; i < (int)es.size(); i++) if (components(n, es, -1, i) > C) br.insert(std::minmax(es[i].first, es[i].second));
    for (auto& e : b.cut_edges) got.insert(std::minmax(e.u, e.v)); c.ok(got == br && b.cut_edges.size() == br.size(), "bridges");
    std::vector<int> cut; std::vector<int> deg(n, 0); for (auto& e : es) deg[e.first]++, deg[e.second]++; for (int v = 0; v < n; v++) if (components(n, es, v) > C - (deg[v] == 0)) cut.push_back(v); auto cv = b.cut_vertices; std::sort(cv.begin(), cv.end()); c.eq(cv, cut, "articulation_points");
    auto bl = blocks(n, es); std::set<std::vector<int>> gb; for (auto x : b.components) { std::sort(x.begin(), x.end()); c.ok(std::adjacent_find(x.begin(), x.end()) == x.end(), "block_vertices_distinct"); gb.insert(x); } c.ok(gb == bl && b.components.size() == bl.size(), "blocks");
    // chains: every edge on a cycle exactly once; first chain of a block closes, the others have distinct ends
    c.eq((int)b.decomposition.size(), C, "chain_components"); std::set<std::pair<int, int>> all, on; for (auto& e : es) all.insert(std::minmax(e.first, e.second)); size_t k = 0;
    for (auto& comp : b.decomposition) for (auto& blk : comp) {
        c.ok(!blk.empty() && k < b.components.size(), "chain_blocks"); std::set<int> vs; for (size_t i = 0; i < blk.size(); i++) {
            auto& ch = blk[i]; c.ok(ch.size() >= 2 && (ch.front() == ch.back()) == (i == 0), "chain_shape"); std::set<int> inner(ch.begin() + 1, ch.end()); c.eq(inner.size(), ch.size() - 1, "chain_simple");
            for (size_t j = 1; j < ch.size(); j++) { std::pair<int, int> e = std::minmax(ch[j - 1], ch[j]); c.ok(all.count(e) && on.insert(e).second, "chain_edges_once"); } vs.insert(ch.begin(), ch.end()); }
        std::set<int> w(b.components[k].begin(), b.components[k].end()); c.ok(vs == w, "chain_block_vertices"); k++; }
    for (auto& e : all) c.ok(on.count(e) + br.count(e) == 1, "chain_covers_non_bridges");
    // block-cut tree
    int vb = (int)b.components.size(), va = (int)b.cut_vertices.size(); auto& t = b.block_cut_tree; auto& ix = b.bc_tree_idx; c.eq((int)ix.size(), n, "bct_map"); std::set<int> used; std::vector<std::pair<int, int>> we, ge; int extra = 0;
    for (int i = 0; i < va; i++) c.eq(ix[b.cut_vertices[i]], vb + i, "bct_articulation_node");
    for (int v = 0; v < n; v++) { if (std::binary_search(cut.begin(), cut.end(), v)) continue; int in = -1; for (int i = 0; i < vb; i++) if (std::count(b.components[i].begin(), b.components[i].end(), v)) in = i; if (in >= 0) c.eq(ix[v], in, "bct_block_node"); else { extra++; c.ok(ix[v] >= vb + va && ix[v] < t.size() && used.insert(ix[v]).second, "bct_leaf_node"); } }
    c.eq(t.size(), vb + va + extra, "bct_size");
    for (int i = 0; i < vb; i++) for (int v : b.components[i]) if (ix[v] != i) we.push_back(std::minmax(i, ix[v])); for (auto& e : br) we.push_back(std::minmax(ix[e.first], ix[e.second]));
    for (int u = 0; u < t.size(); u++) for (auto& e : t[u]) { bool back = false; for (auto& f : t[e.v]) back |= f.v == u; c.ok(back && e.v != u, "bct_symmetric"); if (u < e.v) ge.push_back({ u, e.v }); } std::sort(we.begin(), we.end()); std::sort(ge.begin(), ge.end()); c.ok(we == ge, "bct_edges"); c.eq(t.size() - (int)ge.size(), C, "bct_forest");
    if (vb) c.event("graphs_with_blocks"); if (va) c.event("graphs_with_articulation"); if (es.size() > 2) c.nontrivial_input();
}
UNIT(chromatic, 1200, 12000, "one simple graph: the polynomial takes the number of proper colourings at every k up to n+2") {
    auto& r = c.rng; int n = (int)r.below(c.thorough ? 10 : 8); auto es = simple_graph(r, n); c.input("chromatic %s", show(n, es).c_str());
    auto p = chromatic_polynomial<int64_t>(build(n, es)); auto a = independent_partitions(n, es);
    for (int k = 0; k <= n + 2; k++) { __int128 v = 0; for (int i = p.deg(); i >= 0; i--) v = v * k + p[i]; c.ok(v == colourings(a, k), "chromatic_value", "k=" + std::to_string(k)); }
    c.eq(p.deg(), n, "chromatic_degree"); typedef modulo<int, 10007> M; auto q = chromatic_polynomial<M>(build(n, es)); for (int i = 0; i <= n; i++) c.eq(q[i].v, int((p[i] % 10007 + 10007) % 10007), "chromatic_modulo");
    int m = (int)r.range(1, 9); Edges t, cy, kk; for (int i = 1; i < m; i++) t.push_back({ i, (int)r.below(i) }); for (int i = 0; i < m; i++) { if (m > 2) cy.push_back({ i, (i + 1) % m }); for (int j = 0; j < i; j++) kk.push_back({ i, j }); }
    auto cmp = [&](const polynom<int64_t>& f, const Edges& e, const char* tag) { auto b = independent_partitions(m, e); for (int k = 0; k <= m + 1; k++) { __int128 v = 0; for (int i = f.deg(); i >= 0; i--) v = v * k + f[i]; c.ok(v == colourings(b, k), tag); } };
    cmp(chromatic_polynomial_T<int64_t>(m), t, "chromatic_tree"); if (m > 2) cmp(chromatic_polynomial_C<int64_t>(m), cy, "chromatic_cycle"); cmp(chromatic_polynomial_K<int64_t>(m), kk, "chromatic_complete");
    if (es.size() > 2) c.nontrivial_input();
}
UNIT(trees, 8000, 100000, "one forest: ancestors, distances, subtrees, k-th parents and path walks equal climbing parent links") {
    auto& r = c.rng; int n = (int)r.below(r.coin(1, 8) ? 80 : 12); auto es = forest(r, n, (int)r.below(6), (int)r.pick({0, 0, 5, 20})); c.input("forest %s", show(n, es).c_str());
    graph<weighted_edge<int>> g(n); for (auto& e : es) g.add_edge2(e.first, { e.second, std::min(e.first, e.second) * 1000 + std::max(e.first, e.second) }); auto t = rooted(g);
    lowest_common_ancestor l(g); auto orig = g; heavy_light_decomposition_ex h(g);
    for (int u = 0; u < n; u++) { // the decomposition may only reorder the adjacency lists
        std::vector<std::pair<int, int>> a, b; for (auto& e : orig[u]) a.push_back({ e.v, e.w }); for (auto& e : g[u]) b.push_back({ e.v, e.w }); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); c.ok(a == b, "hld_keeps_edges"); }
    std::vector<char> seen(n, 0); for (int u = 0; u < n; u++) { int p = h.position(u); c.ok(p >= 0 && p < n && !seen[p], "hld_positions"); seen[p] = 1; c.eq(h.node(p), u, "hld_node"); c.eq(h.subtree_size(u), t.size[u], "subtree_size"); c.eq(h.depth(u), t.dep[u], "depth"); c.eq(l.depth(u), t.dep[u], "lca_depth"); }
    c.eq(l.depth(-1), -1, "depth_none");
    for (int u = 0; u < n; u++) { // a subtree is contiguous; chains go up to hld.parent
        for (int p = h.position(u); p < h.position(u) + t.size[u]; p++) { int x = h.node(p); while (x >= 0 && x != u) x = t.par[x]; c.eq(x, u, "subtree_contiguous"); }
        int links = 0; for (int x = u; x >= 0; x = h.hld.parent(x)) { links++; c.ok(links <= 40, "hld_chain_parent_climbs"); int y = x, p = h.hld.parent(x); while (y >= 0 && y != p) { if (t.par[y] != p && t.par[y] >= 0) c.eq(h.position(t.par[y]), h.position(y) - 1, "hld_chain_contiguous"); y = t.par[y]; } c.eq(y, p, "hld_chain_parent"); }
        int lg = 0; while (n >> (lg + 1)) lg++; c.ok(links <= lg + 1, "hld_logarithmic_chains");
    }
    for (int q = 0, Q = n ? std::min(n * n, 60) : 0; q < Q; q++) {
        int u = n <= 7 ? q / n % n : (int)r.below(n), v = n <= 7 ? q % n : (int)r.below(n), a = naive_lca(t, u, v), d = a < 0 ? -1 : t.dep[u] + t.dep[v] - 2 * t.dep[a];
        c.eq(l.ancestor(u, v), a, "lca"); c.eq(l.distance(u, v), d, "distance"); c.eq(h.ancestor(u, v), a, "hld_lca"); c.eq(h.distance(u, v), d, "hld_distance");
        int k = (int)r.range(-1, t.dep[u] + 2), x = u; if (k < 0) x = -1; for (int i = 0; i < k && x >= 0; i++) x = t.par[x]; c.eq(h.parent(u, k), x, "kth_parent"); c.eq(h.parent(u, 0), u, "parent_zero");
        if (a < 0) continue;
        std::vector<int> path, down; for (int y = u; y != a; y = t.par[y]) path.push_back(y); path.push_back(a); for (int y = v; y != a; y = t.par[y]) down.push_back(y); path.insert(path.end(), down.rbegin(), down.rend());
        for (int nodes = 0; nodes < 2; nodes++) { // every path node (or edge, by its lower node) reported once at its distance
            int len = d + nodes; std::vector<int> got(len, -1); auto vis = [&](int cb, int ce, int pf, int pl, int pn, bool rev) {
                c.eq(pn, len, "walk_length"); c.ok(0 <= cb && cb < ce && ce <= n, "walk_chain_range"); c.eq((rev ? pf - pl : pl - pf) + 1, ce - cb, "walk_segment_length");
                for (int i = 0; i < ce - cb; i++) { int at = rev ? pf - i : pf + i; c.ok(at >= 0 && at < len && got[at] == -1, "walk_once"); got[at] = h.node(cb + i); } };
            int ret = nodes ? h.walk_nodes(u, v, vis) : h.walk_edges(u, v, vis); c.eq(ret, len, "walk_return");
            for (int i = 0; i < len; i++) { int w = nodes ? path[i] : (t.dep[path[i]] > t.dep[path[i + 1]] ? path[i] : path[i + 1]); c.eq(got[i], w, nodes ? "walk_nodes" : "walk_edges"); }
        }
        c.event("path_walks");
    }
    if (n > 2) c.nontrivial_input();
}
UNIT(graph_edits, 8000, 100000, "one history of graph edits (nodes and edges added and deleted, parallel edges, loops, contraction, deduplication, copies) against a list of edges") {
    auto& r = c.rng; typedef std::vector<std::array<int, 3>> M; int n = (int)r.below(6), w = 0; c.input("graph edits from n=%d", n); graph<weighted_edge<int>> g(n), old; M m, oldm; int oldn = 0; std::string log; bool kept = false;
    auto same = [&](const graph<weighted_edge<int>>& g, const M& m, int n, const char* tag) { c.checks(); M a, b = m; for (int u = 0; u < g.size(); u++) for (auto& e : g[u]) a.push_back({u, e.v, e.w}); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (g.size() != n || a != b || g.num_edges() != (int)m.size()) c.fail(tag, std::string(tag) + ": nodes " + vm::S(g.size()) + " want " + vm::S(n) + ", edges " + vm::S(a.size()) + " (num_edges " + vm::S(g.num_edges()) + ") want " + vm::S(b.size()) + " after" + log); };
    auto drop = [&](auto p) { m.erase(std::remove_if(m.begin(), m.end(), p), m.end()); }; auto remove_node = [&](int u) { drop([&](auto& e) { return e[0] == u || e[1] == u; }); n--; for (auto& e : m) for (int i = 0; i < 2; i++) if (e[i] == n) e[i] = u; };
    auto unique = [&](int u) { std::set<int> s; M k; std::map<int, std::set<int>> ws; for (auto& e : m) if (e[0] == u) ws[e[1]].insert(e[2]); std::map<int, int> got; for (auto& e : g[u]) { if (got.count(e.v) || !ws[e.v].count(e.w)) c.fail("deduplicated", "edge " + vm::S(u) + "->" + vm::S(e.v) + " repeated or invented after" + log); got[e.v] = e.w; } for (auto& e : m) if (e[0] != u) k.push_back(e); for (auto& x : ws) if (x.second.size()) { if (!got.count(x.first)) c.fail("deduplicated", "edge " + vm::S(u) + "->" + vm::S(x.first) + " lost after" + log); k.push_back({u, x.first, got[x.first]}); } m = k; };
    for (int step = 0, N = 3 + (int)r.below(25); step < N; step++) {
        int k = (int)r.below(14), u = n ? (int)r.below(n) : 0, v = n ? (int)r.below(n) : 0; if (r.coin(1, 6)) v = u; log += " " + std::to_string(k) + ":" + std::to_string(u) + "," + std::to_string(v);
        if (k == 0 || n == 0) { c.eq(g.add_node(), n, "add_node"); n++; } else if (k <= 4) { g.add_edge(u, {v, ++w}); m.push_back({u, v, w}); if (r.coin(1, 3)) { g.add_edge(u, {v, ++w}); m.push_back({u, v, w}); } } else if (k <= 7) { g.add_edge2(u, {v, ++w}); m.push_back({u, v, w}); m.push_back({v, u, w}); } else if (k == 8) { g.delete_edge(u, v); drop([&](auto& e) { return e[0] == u && e[1] == v; }); } else if (k == 9) { if (r.coin(1, 3)) u = n - 1; g.delete_node(u); remove_node(u); }
        else if (k == 10 && u != v) { drop([&](auto& e) { return (e[0] == u && e[1] == v) || (e[0] == v && e[1] == u); }); for (auto& e : m) for (int i = 0; i < 2; i++) if (e[i] == v) e[i] = u; g.contract(u, v); remove_node(v); if (g.size() != n) same(g, m, n, "contract"); for (int x = 0; x < n; x++) unique(x); }
        else if (k == 11) { g.deduplicate_edges(u); unique(u); } else if (k == 12) { if (kept) same(old, oldm, oldn, "copy"); old = g; oldm = m; oldn = n; kept = true; } else if (k == 13 && kept && r.coin(1, 3)) { std::swap(g, old); std::swap(m, oldm); std::swap(n, oldn); }
        same(g, m, n, "graph_edits");
    }
    if (kept) same(old, oldm, oldn, "copy"); graph<weighted_edge<int>> again(g.adjl); c.ok(again == g, "equal graphs"); if (m.size() > 2) c.nontrivial_input();
}
UNIT(large_trees, 6, 30, "one tree of tens of thousands of nodes, including a bare path: no recursion, logarithmic chains") {
    auto& r = c.rng; int n = (int)r.range(20000, c.thorough ? 100000 : 30000), kind = (int)(c.index % 6); auto es = forest(r, n, kind, 0); c.input("large kind=%d n=%d", kind, n);
    graph<edge> g = build(n, es); auto t = rooted(g); lowest_common_ancestor l(g); heavy_light_decomposition_ex h(g); int lg = 0; while (n >> (lg + 1)) lg++;
    if (kind == 1) { biconnectivity<edge> b(g); c.eq(b.cut_edges.size(), es.size(), "large_bridges"); c.eq((int)b.cut_vertices.size(), n - 2, "large_cut_vertices"); c.ok(b.components.empty(), "large_blocks"); }
    for (int q = 0; q < 200; q++) { int u = (int)r.below(n), v = (int)r.below(n), a = naive_lca(t, u, v); c.eq(l.ancestor(u, v), a, "large_lca"); c.eq(h.distance(u, v), t.dep[u] + t.dep[v] - 2 * t.dep[a], "large_distance"); int seg = 0, tot = 0; h.walk_nodes(u, v, [&](int cb, int ce, int, int, int, bool) { seg++; tot += ce - cb; }); c.eq(tot, t.dep[u] + t.dep[v] - 2 * t.dep[a] + 1, "large_walk"); c.ok(seg <= 2 * lg + 3, "large_walk_segments"); }
    c.nontrivial(vm::mix64(n * 8 + kind));
}
UNIT(large_biconnectivity, 12, 120, "one graph of up to tens of thousands of nodes glued together from known blocks and bridges: the same bridges, articulation points, blocks and block-cut tree come back") {
    auto& r = c.rng; int N = (int)r.range(2000, c.thorough ? 60000 : 12000), kind = (int)(c.index % 4), n = 1; std::vector<std::pair<int, int>> es, br; std::vector<std::vector<int>> bl; std::vector<int> nb(1, 0); int comps = 1;
    while (n < N) { // kind 0: anything anywhere, 1: few hubs, 2: a chain of blocks, 3: several components
        if (kind == 3 && r.coin(1, 50)) { n++; nb.push_back(0); comps++; continue; }
        int at = kind == 1 ? (int)r.below(std::min(n, 5)) : kind == 2 ? n - 1 : (int)r.below(n); int k = r.coin(1, 3) ? 1 : r.coin(1, 20) ? 500 : 2 + (int)r.below(8);
        if (k == 1) { es.push_back({ at, n }); br.push_back({ at, n }); nb[at]++; nb.push_back(1); n++; continue; }
        std::vector<int> b{ at }; for (int i = 0; i < k; i++) b.push_back(n + i), nb.push_back(1); nb[at]++; n += k; for (int i = 0; i <= k; i++) es.push_back({ b[i], b[(i + 1) % (k + 1)] });
        std::set<std::pair<int, int>> have; for (int i = 0; i <= k; i++) have.insert(std::minmax(i, (i + 1) % (k + 1))); for (int x = (int)r.below(k + 1); x > 0; x--) { int i = (int)r.below(k + 1), j = (int)r.below(k + 1); if (i != j && have.insert(std::minmax(i, j)).second) es.push_back({ b[i], b[j] }); }
        bl.push_back(b); }
    std::vector<int> id(n); for (int i = 0; i < n; i++) id[i] = i; if (kind != 2 || r.coin()) r.shuffle(id); for (auto& e : es) { e = { id[e.first], id[e.second] }; if (r.coin()) std::swap(e.first, e.second); } r.shuffle(es); c.input("glued kind=%d n=%d edges=%zu", kind, n, es.size());
    auto g = build(n, es); biconnectivity<edge> b(g); std::set<std::pair<int, int>> wb, gb; for (auto& e : br) wb.insert(std::minmax(id[e.first], id[e.second])); for (auto& e : b.cut_edges) gb.insert(std::minmax(e.u, e.v)); c.ok(wb == gb && b.cut_edges.size() == wb.size(), "glued_bridges");
    std::vector<int> wc, gc = b.cut_vertices; for (int v = 0; v < n; v++) if (nb[v] > 1) wc.push_back(id[v]); std::sort(wc.begin(), wc.end()); std::sort(gc.begin(), gc.end()); c.ok(wc == gc, "glued_articulation_points");
    std::vector<std::vector<int>> w, got = b.components; for (auto x : bl) { for (int& v : x) v = id[v]; std::sort(x.begin(), x.end()); w.push_back(x); } for (auto& x : got) std::sort(x.begin(), x.end()); std::sort(w.begin(), w.end()); std::sort(got.begin(), got.end()); c.ok(w == got, "glued_blocks");
    size_t m = 0; for (int u = 0; u < b.block_cut_tree.size(); u++) m += b.block_cut_tree[u].size(); c.eq((int)b.block_cut_tree.size() - (int)m / 2, comps, "glued_forest"); c.eq((int)b.decomposition.size(), comps, "glued_chain_components"); c.event("glued_blocks", bl.size()); c.nontrivial(vm::mix64(n * 4 + kind));
}
