// C29: suffix arrays, tries, Aho-Corasick, palindrome trees, KMP and polynomial hashes against naive string processing.
#include "vm.h"
#include <functional>
#include <limits>
#include <string>
#include "altruct/structure/container/suffix_array.h"
#include "altruct/structure/container/prefix_tree.h"
#include "altruct/structure/container/aho_corasick_trie.h"
#include "altruct/structure/container/palindrome_tree.h"
#include "altruct/algorithm/search/kmp_search.h"
#include "altruct/algorithm/hash/polynomial_hash.h"

using namespace altruct::container;
using namespace altruct::search;
using namespace altruct::hash;

typedef polynomial_hash<2> PH2; template<> int32_t PH2::M[2] = { 758986603, 1000000007 }; template<> int32_t PH2::B[2] = { 36759071, 32547971 }; template<> int32_t PH2::BI[2] = { 366621061, 624567078 };
typedef polynomial_hash<3> PH3; template<> int32_t PH3::M[3] = { 2147483647, 101, 2 }; template<> int32_t PH3::B[3] = { 48271, 7, 1 }; template<> int32_t PH3::BI[3] = { 1899818559, 29, 1 };
typedef polynomial_hash<1, int64_t, __int128> PH1L; template<> int64_t PH1L::M[1] = { 2305843009213693951LL }; template<> int64_t PH1L::B[1] = { 1000000000000000003LL }; template<> int64_t PH1L::BI[1] = { 0 };

namespace {
typedef std::vector<int> Text;
// random, unary, periodic, Fibonacci, runs, Thue-Morse, repeated blocks with defects
Text gen_text(vm::Rng& r, int n, int sigma) {
    Text s(n); if (!n) return s;
    switch (r.below(7)) {
    case 0: for (auto& x : s) x = (int)r.below(sigma); break;
    case 1: { int a = (int)r.below(sigma); for (auto& x : s) x = a; if (r.coin()) s[r.below(n)] = (int)r.below(sigma); break; }
    case 2: { int p = (int)r.range(1, std::min(n, 9)); for (int i = 0; i < n; i++) s[i] = i < p ? (int)r.below(sigma) : s[i - p]; if (r.coin()) s[n - 1] = (int)r.below(sigma); break; }
    case 3: { int a = (int)r.below(sigma), b = (int)r.below(sigma); Text x{ a }, y{ a, b }; while ((int)y.size() < n) { Text z = y; z.insert(z.end(), x.begin(), x.end()); x = y; y = z; } s.assign(y.begin(), y.begin() + n); break; }
    case 4: for (int i = 0; i < n;) { int l = (int)r.range(1, 6), a = (int)r.below(sigma); while (l-- && i < n) s[i++] = a; } break;
    case 5: { int a = (int)r.below(sigma), b = (int)r.below(sigma); for (int i = 0; i < n; i++) s[i] = __builtin_popcount(i) & 1 ? a : b; break; }
    default: { int m = (int)r.range(1, n); for (int i = 0; i < n; i++) s[i] = i < m ? (int)r.below(sigma) : s[i - m]; for (int k = (int)r.below(4); k--;) s[r.below(n)] = (int)r.below(sigma); break; }
    }
    return s;
}
std::string show(const Text& t) { return "n=" + std::to_string(t.size()) + " " + (t.size() > 150 ? vm::str(Text(t.begin(), t.begin() + 150)) + "..." : vm::str(t)); }
int cmp3(int a, int b) { return a < b ? -1 : a > b; }

template<typename A, typename I> void run_suffix(vm::Ctx& c, int sigma, int n, const char* name) {
    auto& r = c.rng; Text t = gen_text(r, n, sigma); c.input("suffix_array<%s> %s", name, show(t).c_str());
    std::vector<A> s(t.begin(), t.end()); s.shrink_to_fit(); suffix_array<A, I> sa(s.begin(), s.end()); c.eq((int)sa.size(), n, "sa_size");
    auto less = [&](int a, int b) { return std::lexicographical_compare(t.begin() + a, t.end(), t.begin() + b, t.end()); };
    std::vector<char> seen(n + 1, 0);
    for (int k = 0; k <= n; k++) { int p = (int)sa.get_kth_suffix(k); c.ok(p >= 0 && p <= n && !seen[p], "sa_permutation"); seen[p] = 1; c.eq((int)sa.get_suffix_order(p), k, "sa_inverse"); if (k) c.ok(less((int)sa.get_kth_suffix(k - 1), p), "sa_sorted"); }
    auto lcp = [&](int a, int b) { int l = 0; while (a + l < n && b + l < n && t[a + l] == t[b + l]) l++; return l; };
    for (int q = 0, Q = n <= 7 ? (n + 1) * (n + 1) : 60; q < Q; q++) {
        int a = n <= 7 ? q / (n + 1) : (int)r.range(0, n), b = n <= 7 ? q % (n + 1) : r.coin(1, 4) ? a : (int)r.range(0, n); c.eq((int)sa.get_lcp(a, b), lcp(a, b), "sa_lcp");
        int ea = (int)r.range(a, n), eb = (int)r.range(b, n); if (r.coin()) { int l = std::min(n - a, n - b), k = (int)r.below(l + 1); ea = a + k, eb = b + k; if (r.coin(1, 3) && eb < n) eb++; }
        int w = std::lexicographical_compare(t.begin() + a, t.begin() + ea, t.begin() + b, t.begin() + eb) ? -1 : std::lexicographical_compare(t.begin() + b, t.begin() + eb, t.begin() + a, t.begin() + ea) ? 1 : 0;
        c.eq(cmp3(sa.compare_substrings(a, ea, b, eb), 0), w, "sa_compare");
    }
    if (n > 2) c.nontrivial_input();
}
int pick_len(vm::Ctx& c) { auto& r = c.rng; switch (r.below(12)) { case 0: return (int)r.range(100, c.thorough ? 1500 : 400); case 1: case 2: return (int)r.range(10, 60); default: return (int)r.below(12); } }
} // namespace

UNIT(suffix_array, 8000, 80000, "one text over an alphabet of 1 to 1000 letters: order, inverse, longest common prefixes, substring comparisons") {
    auto& r = c.rng; int n = pick_len(c);
    switch (r.below(5)) {
    case 0: run_suffix<char, int>(c, (int)r.pick({1, 2, 4, 26, 128}), n, "char,int"); break;
    case 1: run_suffix<uint8_t, int>(c, (int)r.pick({2, 4, 256}), n, "uint8_t,int"); break;
    case 2: run_suffix<int, int>(c, (int)r.pick({2, 3, 1000}), n, "int,int"); break;
    case 3: run_suffix<char, int64_t>(c, (int)r.pick({2, 3, 26}), n, "char,int64_t"); break;
    default: run_suffix<uint16_t, int>(c, (int)r.pick({2, 5, 3000}), n, "uint16_t,int"); break;
    }
}
UNIT(suffix_array_exhaustive, 400, 2200, "every text of a length over a small alphabet (index selects a block of texts)") {
    // block of 16 texts out of all texts over {0,1,2} up to length 8 (9 in thorough), in order of length
    int L = c.thorough ? 9 : 7; uint64_t total = 0, p = 1; std::vector<uint64_t> off; for (int l = 0; l <= L; l++) { off.push_back(total); total += p; p *= 3; }
    c.input("exhaustive block %llu of %llu texts", (unsigned long long)c.index, (unsigned long long)total); uint64_t per = (total + c.count - 1) / c.count;
    for (uint64_t k = c.index * per; k < std::min(total, (c.index + 1) * per); k++) {
        int n = 0; while (n < L && off[n + 1] <= k) n++; uint64_t v = k - off[n]; std::vector<int> t(n); for (int i = 0; i < n; i++) t[i] = (int)(v % 3), v /= 3; c.input("exhaustive text %s", vm::str(t).c_str());
        std::vector<char> s(t.begin(), t.end()); s.shrink_to_fit(); suffix_array<char, int> sa(s.begin(), s.end());
        std::vector<int> w(n + 1); for (int i = 0; i <= n; i++) w[i] = i; std::sort(w.begin(), w.end(), [&](int a, int b) { return std::lexicographical_compare(t.begin() + a, t.end(), t.begin() + b, t.end()); });
        for (int i = 0; i <= n; i++) c.eq(sa.get_kth_suffix(i), w[i], "sa_exhaustive_order");
        for (int a = 0; a <= n; a++) for (int b = 0; b <= n; b++) { int l = 0; while (a + l < n && b + l < n && t[a + l] == t[b + l]) l++; c.eq(sa.get_lcp(a, b), l, "sa_exhaustive_lcp"); }
        c.event("texts");
    }
    c.nontrivial(c.index + 1);
}
UNIT(prefix_tree, 6000, 60000, "one history of adds, appends, finds, erases and clears on a trie, compared with a list of words; copies are independent") {
    auto& r = c.rng; typedef prefix_tree<4> PT; int ops = (int)r.below(r.pick({15, 80, 250})); int maxlen = (int)r.pick({2, 4, 12}); c.input("prefix_tree ops=%d maxlen=%d", ops, maxlen);
    auto ord = [](char x) { return uint8_t(x - 'a'); }; auto let = [](uint8_t o) { return char('a' + o); };
    c.event("erases", 0); size_t before = vm::allocated_bytes();
    { PT pt; std::vector<std::string> words{ "" }; auto word = [&] { std::string s; if (words.size() > 1 && r.coin(1, 3)) { s = words[r.below(words.size())]; if (r.coin()) s = s.substr(0, r.below(s.size() + 1)); else if (r.coin()) s.push_back('a' + (int)r.below(4)); } else for (int l = (int)r.below(maxlen + 1); l--;) s.push_back('a' + (int)r.below(r.coin() ? 2 : 4)); return s; };
      auto find = [&](const std::string& s) { for (size_t i = 1; i < words.size(); i++) if (words[i] == s) return (int)i; return 0; };
      auto full = [&](PT& pt, const std::vector<std::string>& words) {
          c.eq(pt.num_words(), (int)words.size() - 1, "trie_num_words"); std::set<std::string> pre; for (size_t i = 1; i < words.size(); i++) for (size_t l = 1; l <= words[i].size(); l++) pre.insert(words[i].substr(0, l)); c.eq(pt.num_letters(), (int)pre.size(), "trie_num_letters");
          for (size_t i = 0; i < words.size(); i++) c.eq(pt.get((int)i, let), words[i], "trie_get");
          std::vector<std::pair<std::string, int>> got, want; int id = words.size() ? (int)r.below(words.size()) : 0; auto vis = [&](const std::string& s, int i) { got.push_back({ s, i }); }; if (id) pt.for_each(id, vis, let); else pt.for_each(vis, let);
          for (size_t i = 1; i < words.size(); i++) if (words[i].compare(0, words[id].size(), words[id]) == 0) want.push_back({ words[i], (int)i }); std::sort(want.begin(), want.end()); c.eq(got, want, "trie_for_each"); };
      for (int q = 0; q < ops; q++) {
          switch (r.below(8)) {
          case 0: case 1: case 2: { auto s = word(); int w = find(s); if (!w && !s.empty()) { words.push_back(s); w = (int)words.size() - 1; } int g = r.coin() ? pt.add(s, ord) : pt.add(s.begin(), s.end(), ord); c.eq(g, w, "trie_add"); break; }
          case 3: { int id = (int)r.below(words.size()); auto s = word(); s = s.substr(0, 3); auto f = words[id] + s; int w = find(f); if (!w && !f.empty()) { words.push_back(f); w = (int)words.size() - 1; } c.eq(pt.append(id, s, ord), w, "trie_append"); break; }
          case 4: { auto s = word(); c.eq(pt.find(s, ord), find(s), "trie_find"); break; }
          case 5: { int w; int g; if (r.coin()) { auto s = word(); w = find(s); g = r.coin() ? pt.erase(s, ord) : pt.erase(s.begin(), s.end(), ord); } else { w = (int)r.below(words.size()); g = pt.erase(w); } c.eq(g, w, "trie_erase"); if (w) { words[w] = words.back(); words.pop_back(); c.event("erases"); } break; }
          case 6: if (r.coin(1, 6)) { pt.clear(); words.resize(1); } else full(pt, words); break;
          default: if (r.coin(1, 3)) { // copies live on their own
              PT cp(pt); auto w2 = words; auto s = word(); if (s.size() && !find(s)) { cp.add(s, ord); w2.push_back(s); } full(cp, w2); full(pt, words); if (r.coin()) { PT as; as.add(std::string("abca"), ord); as = pt; full(as, words); if (r.coin()) { pt = as; full(pt, words); } } } break;
          }
      }
      full(pt, words); }
    c.eq(vm::allocated_bytes(), before, "trie_frees_all"); if (ops > 3) c.nontrivial_input();
}
UNIT(aho_corasick, 8000, 80000, "one dictionary (with repeated and nested words) and texts: match counts equal naive counting") {
    auto& r = c.rng; int sigma = (int)r.range(1, 4), m = (int)r.below(r.pick({3, 8, 30})); std::vector<Text> dict; Text text = gen_text(r, pick_len(c), sigma);
    for (int i = 0; i < m; i++) { if (text.size() && r.coin()) { size_t b = r.below(text.size()), l = r.range(1, std::min<int64_t>(12, text.size() - b)); dict.push_back(Text(text.begin() + b, text.begin() + b + l)); } else dict.push_back(gen_text(r, (int)r.range(1, 8), sigma)); if (r.coin(1, 6)) dict.push_back(dict[r.below(dict.size())]); }
    c.input("aho dict=%s text=%s", vm::str(dict).c_str(), show(text).c_str());
    aho_corasick_trie<4, int, char> t; std::map<Text, int> ids; std::set<Text> pre; for (auto& w : dict) { int id = r.coin() ? t.insert(w.begin(), w.end()) : t.insert(w.begin(), w.end(), [](int x) { return (char)x; }); auto it = ids.emplace(w, id).first; c.eq(id, it->second, "aho_same_node"); for (size_t l = 1; l <= w.size(); l++) pre.insert(Text(w.begin(), w.begin() + l)); }
    c.eq(t.size(), (int)pre.size() + 2, "aho_nodes"); t.build();
    for (int q = 0; q < 3; q++) {
        int64_t want = 0; for (auto& w : dict) for (size_t i = 0; i + w.size() <= text.size(); i++) want += std::equal(w.begin(), w.end(), text.begin() + i);
        c.eq(t.count_matches(text.begin(), text.end()), want, "aho_count"); c.eq(t.count_matches(text.begin(), text.end(), [](int x) { return (char)x; }), want, "aho_count_ordinal"); if (want) c.event("aho_matches", want);
        int node = t.root(); for (size_t i = 0; i < text.size() && i < 60; i++) { // the state spells the longest suffix that is a prefix of a word
            node = t.move_next(node, (char)text[i]); Text sp; for (int x = node; x != t.root(); x = t[x].parent) sp.push_back(t[x].let); std::reverse(sp.begin(), sp.end());
            size_t best = 0; for (size_t l = 1; l <= i + 1; l++) if (pre.count(Text(text.begin() + (i + 1 - l), text.begin() + (i + 1)))) best = l; c.ok(sp == Text(text.begin() + (i + 1 - best), text.begin() + (i + 1)), "aho_state");
            int64_t end = 0; for (auto& w : dict) end += w.size() <= i + 1 && std::equal(w.begin(), w.end(), text.begin() + (i + 1 - w.size())); c.eq((int64_t)t[node].word_cnt, end, "aho_ending_here"); }
        text = gen_text(r, pick_len(c), sigma); c.note(" then " + show(text));
    }
    aho_corasick_trie<26, int64_t, int> u; std::vector<std::string> wl; for (auto& w : dict) { std::string s; for (int x : w) s.push_back('a' + x * 8); wl.push_back(s); u.insert(s.begin(), s.end(), [](char x) { return x - 'a'; }); } u.build(); std::string ts; for (int x : text) ts.push_back('a' + x * 8); int64_t want = 0; for (auto& w : wl) for (size_t p = ts.find(w); p != std::string::npos; p = ts.find(w, p + 1)) want++; c.eq(u.count_matches(ts.begin(), ts.end(), [](char x) { return x - 'a'; }), want, "aho_count_letters");
    if (m > 1) c.nontrivial_input();
}
UNIT(aho_corasick_many, 6, 30, "a dictionary with thousands of repeated or nested words over one letter and a long text: the number of matches exceeds 32 bits") {
    auto& r = c.rng; int n = 60000 + (int)r.below(30000); bool nested = c.index % 2; int m = nested ? 40000 + (int)r.below(10000) : 80000; c.input("aho many words=%d text=%d nested=%d", m, n, nested);
    aho_corasick_trie<2, int, char> t; std::vector<char> w(m, 0); if (nested) { for (int l : {m, m - 1, m / 2, 1}) t.insert(w.begin(), w.begin() + l); } for (int i = 0; i < (nested ? 60000 : m); i++) t.insert(w.begin(), w.begin() + (nested ? 2 : 1)); t.build(); std::vector<char> x(n, 0); int64_t want = 0;
    if (nested) { for (int l : {m, m - 1, m / 2, 1}) want += n - l + 1; want += int64_t(60000) * (n - 1); } else want = int64_t(m) * n;
    c.eq(t.count_matches(x.begin(), x.end()), want, "aho_count_large"); c.nontrivial_input();
}
UNIT(palindrome_tree, 8000, 80000, "one text built in pieces: distinct palindromes, first positions, multiplicities, totals and longest suffixes equal enumeration") {
    auto& r = c.rng; int sigma = (int)r.range(1, 4), n = r.coin(1, 10) ? (int)r.range(60, 150) : (int)r.below(20); Text t = gen_text(r, n, sigma); c.input("palindrome_tree %s", show(t).c_str());
    typedef palindrome_tree<4> PT; auto ord = [](int x) { return uint8_t(x); }; PT p; int split = (int)r.range(0, n), c1 = 0;
    if (r.coin()) { p = PT(t.begin(), t.begin() + split, ord); } else c1 = p.add_all(t.data(), t.data() + split, ord);
    std::map<Text, std::pair<int, int>> all; int64_t total = 0; auto ext = [&](int i) { int fresh = 0, lng = 0; for (int b = 0; b <= i; b++) { Text s(t.begin() + b, t.begin() + i + 1); if (!std::equal(s.begin(), s.end(), s.rbegin())) continue; if (!lng) lng = (int)s.size(); total++; auto k = all.emplace(s, std::make_pair(b, 0)); if (k.second) fresh++; k.first->second.second++; } return std::make_pair(fresh, lng); };
    int fresh = 0; for (int i = 0; i < split; i++) fresh += ext(i).first; if (c1) c.eq(c1, fresh, "pal_add_all");
    for (int i = split; i < n; i++) { auto w = ext(i); int g = r.coin() ? p.add(t[i], ord) : p.add((uint8_t)t[i]); c.eq(g, w.first, "pal_add"); c.eq(p[p.longest_suffix()].len, w.second, "pal_longest_suffix"); c.eq(p.total(), total, "pal_total"); c.eq(p.distinct(), (int)all.size(), "pal_distinct"); }
    c.eq(p.total(), total, "pal_total"); c.eq(p.distinct(), (int)all.size(), "pal_distinct"); c.eq(p.size(), p.first() + p.distinct(), "pal_size");
    p.propagate(); std::set<Text> seen;
    for (int i = p.first(); i < p.size(); i++) { auto& x = p[i]; c.ok(x.pos >= 0 && x.len > 0 && x.pos + x.len <= n, "pal_range"); Text s(t.begin() + x.pos, t.begin() + x.pos + x.len); auto it = all.find(s); c.ok(it != all.end() && seen.insert(s).second, "pal_member"); c.eq(x.pos, it->second.first, "pal_first_position"); c.eq(x.cnt, it->second.second, "pal_multiplicity");
        int d = 0, best = 0; for (int l = 1; l <= x.len; l++) { Text q(s.end() - l, s.end()); if (std::equal(q.begin(), q.end(), q.rbegin())) { d++; if (l < x.len) best = l; } } c.eq(x.depth, d, "pal_depth"); c.eq(p[x.suff].len, best, "pal_suffix_link");
        for (int a = 0; a < sigma; a++) { Text e; e.push_back(a); e.insert(e.end(), s.begin(), s.end()); e.push_back(a); if (x.next[a]) { auto& y = p[x.next[a]]; c.ok(Text(t.begin() + y.pos, t.begin() + y.pos + y.len) == e, "pal_next"); } else c.ok(!all.count(e), "pal_next_missing"); } }
    if (n > 2) c.nontrivial_input();
}
UNIT(kmp, 12000, 150000, "one text and pattern: reported positions, early stop and result equal naive search") {
    auto& r = c.rng; int sigma = (int)r.range(1, 4); Text t = gen_text(r, pick_len(c), sigma), p; size_t n = t.size();
    if (n && r.coin(3, 4)) { size_t b = r.below(n), l = r.range(1, std::min<int64_t>(n - b, r.pick({3, 10, 200}))); p.assign(t.begin() + b, t.begin() + b + l); if (r.coin(1, 4)) p[r.below(l)] = (int)r.below(sigma); } else p = gen_text(r, (int)r.range(1, 10), sigma);
    size_t m = p.size(), stop = r.coin(1, 3) ? r.below(4) + 1 : 1u << 30; c.input("kmp stop=%zu text=%s pattern=%s", stop, show(t).c_str(), show(p).c_str());
    std::vector<size_t> want, got; for (size_t i = 0; i + m <= n && want.size() < stop; i++) if (std::equal(p.begin(), p.end(), t.begin() + i)) want.push_back(i); size_t wr = want.empty() ? n : want.back();
    auto cb = [&](size_t x) { got.push_back(x); return got.size() < stop; }; c.eq(kmp_search(t.begin(), n, p.begin(), m, cb), wr, "kmp_result"); c.eq(got, want, "kmp_positions");
    std::vector<char> tc(t.begin(), t.end()), pc(p.begin(), p.end()); tc.shrink_to_fit(); got.clear(); c.eq(kmp_search(tc.data(), n, pc.data(), m, cb), wr, "kmp_result_chars"); c.eq(got, want, "kmp_positions_chars"); c.event("kmp_matches", want.size());
    if (n > 2) c.nontrivial_input();
}
UNIT(hash, 5000, 60000, "one text of signed or unsigned letters: every substring hash is the exact residue of its polynomial, equal substrings agree") {
    auto& r = c.rng; int n = pick_len(c) % 300; bool neg = r.coin(1, 3); Text t = gen_text(r, n, (int)r.pick({2, 26, 256})); if (neg) for (int& x : t) x = (int)(signed char)(x * 37 + 130); c.input("hash %s", show(t).c_str());
    auto mulm = [](__int128 a, __int128 b, __int128 m) { return a * b % m; }; auto poly = [&](int b, int e, int64_t B, int64_t M) { __int128 s = 0; for (int i = e - 1; i >= b; i--) s = (mulm(s, B, M) + ((t[i] % M) + M) % M) % M; return (int64_t)s; };
    typedef polynomial_hash1<758986603, 36759071, 366621061> H1; typedef polynomial_hash1<2147483647, 48271, 1899818559> H1b;
    { __int128 M = PH1L::M[0], e = M - 2, x = PH1L::B[0], inv = 1; for (; e; e /= 2, x = x * x % M) if (e & 1) inv = inv * x % M; PH1L::BI[0] = (int64_t)inv; }
    std::vector<signed char> s; std::string str; if (neg) for (int x : t) str.push_back((char)x);
    cumulative_hash<H1> a; cumulative_hash<H1b> ab; cumulative_hash<PH2> b; cumulative_hash<PH3> d; cumulative_hash<PH1L> l;
    if (neg) { a.assign(str.begin(), str.end()); ab.assign(str.begin(), str.end()); b.assign(str.begin(), str.end()); d = cumulative_hash<PH3>(str.begin(), str.end()); for (char x : str) l.push_back(x); }
    else { int k = n ? (int)r.below(n) : 0; Text junk = gen_text(r, (int)r.below(4), 9); a.assign(junk.begin(), junk.end()); a.assign(t.begin(), t.begin() + k); for (int i = k; i < n; i++) a.push_back(t[i]); ab = cumulative_hash<H1b>(t.begin(), t.end()); b.assign(t.begin(), t.end()); d.assign(t.begin(), t.end()); d.push_back(5); d.pop_back(); for (int x : t) l.push_back(x); }
    c.eq(a.size(), (size_t)n, "hash_size"); c.eq(d.size(), (size_t)n, "hash_size");
    for (int q = 0; q < 25; q++) {
        int x = (int)r.range(0, n), y = (int)r.range(x, n); c.eq((int64_t)a.get(x, y).h, poly(x, y, 36759071, 758986603), "hash1"); c.eq((int64_t)ab.get(x, y).h, poly(x, y, 48271, 2147483647), "hash1_wide");
        for (int k = 0; k < 2; k++) c.eq((int64_t)b.get(x, y).h[k], poly(x, y, PH2::B[k], PH2::M[k]), "hash2"); for (int k = 0; k < 3; k++) c.eq((int64_t)d.get(x, y).h[k], poly(x, y, PH3::B[k], PH3::M[k]), "hash3"); c.eq(l.get(x, y).h[0], poly(x, y, PH1L::B[0], PH1L::M[0]), "hash_long");
        int z = (int)r.range(0, n - (y - x)); bool eq = std::equal(t.begin() + x, t.begin() + y, t.begin() + z); c.ok((b.get(x, y) == b.get(z, z + y - x)) == eq, "hash_equality"); c.ok(!(eq && (b.get(x, y) < b.get(z, z + y - x) || a.get(x, y) < a.get(z, z + y - x) || a.get(x, y).hash() != a.get(z, z + y - x).hash() || b.get(x, y).hash() != b.get(z, z + y - x).hash())), "hash_order");
        // arithmetic on hashes: concatenation, differences, scaling
        PH3 u = d.get(x, y), v = d.get(z, z + y - x); int sh = (int)r.below(50); auto P = [](int64_t b, int64_t e, int64_t m) { __int128 q = 1 % m; for (int i = 0; i < e; i++) q = q * b % m; return (int64_t)q; };
        PH3 sum = u + v, dif = u - v, pr = u * v, sl = u << sh, sr = u >> sh, ad = u, su = u; ad.add(v, sh); su.sub_shr(v, sh); PH3 s1 = u + 1, d1 = u - 1, m3 = u * 3; PH3 a3 = u, r3 = u; a3.add(1, sh); r3.sub_shr(1, sh);
        for (int k = 0; k < 3; k++) { __int128 M = PH3::M[k], U = u.h[k], V = v.h[k], W = P(PH3::B[k], sh, M), WI = P(PH3::BI[k], sh, M); auto ck = [&](int64_t g, __int128 w, const char* tag) { c.eq(g, (int64_t)(((w % M) + M) % M), tag); };
            ck(sum.h[k], U + V, "hash_sum"); ck(dif.h[k], U - V, "hash_difference"); ck(pr.h[k], U * V, "hash_product"); ck(sl.h[k], U * W, "hash_shl"); ck(sr.h[k], U * WI, "hash_shr"); ck(ad.h[k], U + V * W, "hash_add"); ck(su.h[k], (U - V + M) % M * WI, "hash_sub_shr"); ck(s1.h[k], U + 1, "hash_add_scalar"); ck(d1.h[k], U - 1, "hash_sub_scalar"); ck(m3.h[k], U * 3, "hash_mul_scalar"); ck(a3.h[k], U + W, "hash_add_letter"); ck(r3.h[k], (U - 1 + M) % M * WI, "hash_sub_letter"); }
        { PH3 il{int32_t(q), 5}, full{1, 2, int32_t(q)}, em{}; c.ok(il.h == std::array<int32_t, 3>{{int32_t(q), 5, 0}} && full.h == std::array<int32_t, 3>{{1, 2, int32_t(q)}} && em.h == std::array<int32_t, 3>{{0, 0, 0}}, "hash_list"); alignas(PH3) unsigned char raw[sizeof(PH3)]; memset(raw, 0xee, sizeof raw); PH3* dirty = new (raw) PH3{int32_t(q)}; c.ok(dirty->h == std::array<int32_t, 3>{{int32_t(q), 0, 0}}, "hash_list_rest_zero"); memset(raw, 0xee, sizeof raw); dirty = new (raw) PH3(); c.ok(dirty->h == std::array<int32_t, 3>{{0, 0, 0}}, "hash_default_zero"); PH2 tr{int32_t(7), 8, 9}; c.ok(tr.h == std::array<int32_t, 2>{{7, 8}}, "hash_list_long"); }
        { std::vector<PH3> hs{ u, v, sum, PH3{ 3, 1, 0 }, PH3{ 3, 0, 1 }, PH3{ 2, 1, 1 }, PH3{ u.h[0], v.h[1], u.h[2] }, PH3{ v.h[0], u.h[1], v.h[2] } }; // exactly one of <, ==, > holds, and the order is transitive
            for (auto& A : hs) for (auto& B : hs) { c.eq(int(A < B) + int(B < A) + int(A == B), 1, "hash_order_total"); for (auto& D : hs) c.ok(!(A < B && B < D) || A < D, "hash_order_transitive"); } }
        { int32_t sc = (int32_t)r.edgy(INT32_MIN, INT32_MAX); PH3 s2 = u + sc, d2 = u - sc, m2 = u * sc, a2 = u, r2 = u; a2.add(sc, sh); r2.sub_shr(sc, sh); auto md = [](__int128 w, __int128 M) { return (int64_t)(((w % M) + M) % M); };
            for (int k = 0; k < 3; k++) { __int128 M = PH3::M[k], U = u.h[k], W = P(PH3::B[k], sh, M), WI = P(PH3::BI[k], sh, M); c.eq((int64_t)s2.h[k], md(U + sc, M), "hash_add_any_scalar"); c.eq((int64_t)d2.h[k], md(U - sc, M), "hash_sub_any_scalar"); c.eq((int64_t)m2.h[k], md(U * sc, M), "hash_mul_any_scalar"); c.eq((int64_t)a2.h[k], md(U + sc * W, M), "hash_add_any_letter"); c.eq((int64_t)r2.h[k], md(md(U - sc, M) * WI, M), "hash_sub_any_letter"); } }
        H1b e = ab.get(x, y), f = ab.get(z, z + y - x); __int128 M = 2147483647; c.eq((int64_t)(e + f).h, (int64_t)((__int128(e.h) + f.h) % M), "hash1_sum"); c.eq((int64_t)(e - f).h, (int64_t)((__int128(e.h) + M - f.h) % M), "hash1_difference"); c.eq((int64_t)(e * f).h, (int64_t)(__int128(e.h) * f.h % M), "hash1_product"); c.ok(((e << sh) >> sh) == e, "hash1_shift");
    }
    if (n > 2) c.nontrivial_input();
}
UNIT(large, 4, 12, "suffix array and palindrome tree of texts of some hundred thousand letters: neighbours in order, totals equal the centre method") {
    auto& r = c.rng; int n = (int)r.range(100000, c.thorough ? 600000 : 150000), sigma = (int)r.pick({1, 2, 3, 26}); Text t = gen_text(r, n, sigma); c.input("large n=%d sigma=%d", n, sigma);
    std::vector<char> s(t.begin(), t.end()); suffix_array<char, int> sa(s.begin(), s.end()); for (int k = 1; k <= n; k++) { int a = sa.get_kth_suffix(k - 1), b = sa.get_kth_suffix(k), l = sa.get_lcp(a, b); c.ok(a + l == n || (b + l < n && s[a + l] < s[b + l]), "large_sorted"); }
    for (int q = 0; q < 100; q++) { int a = (int)r.below(n), b = (int)r.below(n), l = 0; while (a + l < n && b + l < n && s[a + l] == s[b + l]) l++; c.eq(sa.get_lcp(a, b), l, "large_lcp"); }
    palindrome_tree<26> p(t.begin(), t.end(), [](int x) { return uint8_t(x); }); std::vector<int> d1(n), d2(n); int64_t tot = 0;
    for (int i = 0, L = 0, R = -1; i < n; i++) { int k = i > R ? 1 : std::min(d1[L + R - i], R - i + 1); while (i - k >= 0 && i + k < n && t[i - k] == t[i + k]) k++; d1[i] = k; tot += k; if (i + k - 1 > R) L = i - k + 1, R = i + k - 1; }
    for (int i = 0, L = 0, R = -1; i < n; i++) { int k = i > R ? 0 : std::min(d2[L + R - i + 1], R - i + 1); while (i - k - 1 >= 0 && i + k < n && t[i - k - 1] == t[i + k]) k++; d2[i] = k; tot += k; if (i + k - 1 > R) L = i - k, R = i + k - 1; }
    c.eq(p.total(), tot, "large_palindromes"); p.propagate(); int64_t sum = 0; for (int i = p.first(); i < p.size(); i++) sum += p[i].cnt; c.eq(sum, tot, "large_palindrome_counts");
    c.nontrivial(vm::mix64(n * 100 + sigma));
}

UNIT(alphabet_maps, 1, 1, "letter-to-ordinal maps of tries and palindrome trees count from the first letter of their range and back; words stored through them come back") {
    typedef prefix_tree<26> PT; typedef palindrome_tree<26> QT; c.input("maps");
    for (int i = 0; i < 26; i++) { c.eq((int)PT::ordinal_lower_alpha(char('a' + i)), i, "lower"); c.eq((int)PT::ordinal_upper_alpha(char('A' + i)), i, "upper"); c.eq(PT::letter_lower_alpha((uint8_t)i), char('a' + i), "lower letter"); c.eq(PT::letter_upper_alpha((uint8_t)i), char('A' + i), "upper letter"); c.eq((int)QT::ordinal_lower_alpha(char('a' + i)), i, "palindromes: lower"); c.eq((int)QT::ordinal_upper_alpha(char('A' + i)), i, "palindromes: upper"); if (i < 10) { c.eq((int)PT::ordinal_digit(char('0' + i)), i, "digit"); c.eq(PT::letter_digit((uint8_t)i), char('0' + i), "digit letter"); c.eq((int)QT::ordinal_digit(char('0' + i)), i, "palindromes: digit"); } }
    std::string w = "abracadabra"; QT q(w.begin(), w.end(), QT::ordinal_lower_alpha); std::set<std::string> s; for (size_t i = 0; i < w.size(); i++) for (size_t j = i + 1; j <= w.size(); j++) { std::string t = w.substr(i, j - i), u(t.rbegin(), t.rend()); if (t == u) s.insert(t); } c.eq((size_t)q.distinct(), s.size(), "palindromes"); c.nontrivial(1);
}
