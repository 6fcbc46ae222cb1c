// C30: every reader against a cursor over the source bytes, for hostile chunkings of the source.
#include "vm.h"
#include <math.h>
#include <stdio.h>
#include <limits>
#include <memory>
#include <streambuf>
#include <string>
#include "altruct/io/reader.h"
#include "altruct/io/fast_io.h"
#include "altruct/io/stream_tokenizer.h"

using namespace altruct::io;

namespace {
typedef std::string Str;
bool same(const char* a, const char* b, size_t n) { return std::equal(a, a + n, b); }
Str quote(const Str& s) { Str o; char b[8]; for (unsigned char c : s) { if (o.size() > 700) { o += "..."; break; } if (c >= 0x20 && c < 0x7f && c != '\\') o.push_back((char)c); else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } } return o; }

// ---- sources that hand out the bytes in short pieces
struct chunk_reader : reader { // sometimes one byte, sometimes everything
    const Str& s; size_t pos = 0; vm::Rng r; int maxlen; bool failed = false; uint64_t calls = 0;
    chunk_reader(const Str& s, uint64_t seed, int maxlen) : s(s), r(seed), maxlen(maxlen) {}
    int read_char() override { calls++; if (pos >= s.size()) { failed = true; return -1; } return (unsigned char)s[pos++]; }
    size_t read(char* b, size_t n) override { calls++; size_t l = std::min(n, s.size() - pos); if (l < n) failed = true; if (l > 1 && maxlen) l = r.range(1, std::min<size_t>(l, maxlen)); memcpy(b, s.data() + pos, l); pos += l; return l; }
    operator bool() const override { return !failed; }
};
struct chunk_buf : std::streambuf {
    Str s; size_t pos = 0; vm::Rng r; int maxlen; std::vector<char> win;
    chunk_buf(const Str& s, uint64_t seed, int maxlen) : s(s), r(seed), maxlen(maxlen) {}
    int underflow() override { if (pos >= s.size()) return EOF; size_t l = std::min<size_t>(s.size() - pos, r.range(1, maxlen ? maxlen : 4096)); char last = win.empty() ? 0 : win.back(); bool keep = !win.empty(); win.assign(1, last); if (!keep) win.clear(); size_t off = win.size(); win.insert(win.end(), s.begin() + pos, s.begin() + pos + l); pos += l; setg(win.data(), win.data() + off, win.data() + win.size()); return (unsigned char)*gptr(); }
};
struct cookie { Str s; size_t pos; vm::Rng r; int maxlen; uint64_t calls; };
ssize_t cookie_read(void* v, char* b, size_t n) { cookie* k = (cookie*)v; k->calls++; size_t l = std::min(n, k->s.size() - k->pos); if (l > 1 && k->maxlen) l = k->r.range(1, std::min<size_t>(l, k->maxlen)); memcpy(b, k->s.data() + k->pos, l); k->pos += l; return (ssize_t)l; }
struct short_file { // FILE* whose reads are short
    cookie k; FILE* f; std::vector<char> vb;
    short_file(const Str& s, uint64_t seed, int maxlen, int mode) : k{ s, 0, vm::Rng(seed), maxlen, 0 } { cookie_io_functions_t io = { cookie_read, nullptr, nullptr, nullptr }; f = fopencookie(&k, "r", io); if (mode == 1) setvbuf(f, nullptr, _IONBF, 0); else if (mode == 2) { vb.resize(7); setvbuf(f, vb.data(), _IOFBF, 7); } }
    ~short_file() { fclose(f); }
};

// ---- the specification: a cursor over the bytes
struct Cursor {
    const Str& s; size_t p = 0; bool failed = false;
    explicit Cursor(const Str& s) : s(s) {}
    int get() { if (p >= s.size()) { failed = true; return -1; } return (unsigned char)s[p++]; }
    void back(int c) { if (c != -1) p--; }
    size_t left() const { return s.size() - p; }
    void ws() { int c = get(); while (c != -1 && c <= 0x20) c = get(); back(c); }
    Str token() { ws(); Str o; int c = get(); while (c > 0x20) { o.push_back((char)c); c = get(); } back(c); return o; }
    Str line(char d) { Str o; int c = get(); while (c != -1 && (char)c != d) { o.push_back((char)c); c = get(); } return o; }
    int sign() { int c = get(); if (c == '-') return -1; if (c == '+') return 1; back(c); return 1; }
    Str digits() { Str o; int c = get(); while (c >= '0' && c <= '9') { o.push_back((char)c); c = get(); } back(c); return o; }
    vm::i128 integer() { ws(); int sg = sign(); Str d = digits(); vm::i128 v = 0; for (char x : d) v = v * 10 + (x - '0'); return sg * v; }
    long double real(int* nd) { ws(); int sg = sign(); Str d = digits(), f; int c = get(); long e = 0; if (c == '.') { f = digits(); c = get(); } if (c == 'e' || c == 'E') { int es = sign(); Str x = digits(); e = x.empty() ? 0 : atol(x.c_str()); e *= es; c = get(); } back(c);
        *nd = (int)(d.size() + f.size()); Str t = "0" + d + "." + f + "e" + std::to_string(e); return sg * strtold(t.c_str(), nullptr); }
};
template<typename F> void near(vm::Ctx& c, F got, long double want, int nd, const char* tag) {
    c.checks(); long double tol = fabsl(want) * (long double)std::numeric_limits<F>::epsilon() * (sizeof(F) == 4 ? 1 : nd + 6) + (long double)std::numeric_limits<F>::min(); if (fabsl(want) > (long double)std::numeric_limits<F>::max() / 4) return;
    if (!(fabsl((long double)got - want) <= tol)) c.fail(tag, Str(tag) + ": got " + vm::str((long double)got) + ", want " + vm::str(want));
}
Str gen_bytes(vm::Rng& r, size_t n) { Str s(n, 0); int k = (int)r.below(4); for (auto& x : s) x = k == 0 ? (char)r.below(256) : k == 1 ? (char)r.pick({0, 10, 32, 127, 128, 255, 97}) : k == 2 ? (char)('a' + r.below(26)) : (char)r.range(1, 255); return s; }
Str gen_int(vm::Rng& r, int64_t lo, int64_t hi) { int64_t v = r.edgy(lo, hi); Str s = std::to_string(v); bool neg = s[0] == '-'; if (neg) s.erase(0, 1); if (r.coin(1, 5)) s.insert(0, r.below(20), '0'); return (neg ? "-" : r.coin(1, 6) ? "+" : "") + s; }
Str gen_real(vm::Rng& r) { auto dg = [&](int n) { Str s; for (int l = (int)r.below(n + 1); l--;) s.push_back((char)('0' + r.below(r.coin(1, 5) ? 1 : 10))); return s; }; Str s = r.pick({"", "-", "+"}); s += dg(r.pick({3, 9, 20})); if (r.coin(2, 3)) s += "." + dg(r.pick({3, 9, 20})); if (r.coin(1, 3)) { s += r.pick({"e", "E"}); s += r.pick({"", "-", "+"}); s += std::to_string(r.below(r.pick({5, 30, 290}))); } return s; }
Str gen_ws(vm::Rng& r) { Str s; for (int l = (int)r.below(r.pick({2, 3, 25})); l--;) s.push_back(r.pick({' ', ' ', '\n', '\t', '\r'})); return s; }
// text whose pieces can be read as numbers; kinds tells which read is in range at this point
struct Piece { int kind; Str text; }; // 0 raw bytes, 1 int, 2 long long, 3 real, 4 word, 5 line
std::vector<Piece> gen_pieces(vm::Rng& r, int n) {
    std::vector<Piece> v;
    for (int i = 0; i < n; i++) {
        int k = (int)r.below(6); Str t;
        switch (k) {
        case 0: t = gen_bytes(r, r.below(r.pick({4, 30}))); break;
        case 1: t = gen_ws(r) + gen_int(r, INT32_MIN, INT32_MAX) + r.pick({" ", "x", ":", "\n", "-", "\xff"}); break;
        case 2: t = gen_ws(r) + gen_int(r, INT64_MIN, INT64_MAX) + r.pick({" ", "x", ":", "\n", "+"}); break;
        case 3: t = gen_ws(r) + gen_real(r) + r.pick({" ", "x", ":", "\n", "-"}); break;
        case 4: { t = gen_ws(r); for (int l = (int)r.range(1, r.pick({3, 40})); l--;) t.push_back((char)(r.coin(1, 4) ? r.range(0x80, 0xff) : r.range(0x21, 0x7f))); t.push_back(r.pick({' ', '\n', '\0'})); break; }
        default: { for (int l = (int)r.below(r.pick({3, 60})); l--;) { char x = (char)r.below(256); t.push_back(x == '\n' ? 'n' : x); } t.push_back('\n'); break; }
        }
        v.push_back({ k, t });
    }
    if (r.coin(1, 3) && !v.empty() && v.back().text.size()) v.back().text.pop_back(); // end of input right after the piece
    return v;
}
// the plain interface
// (a buffered reader delivers at most one buffer per block read)
void run_base(vm::Ctx& c, reader& in, const Str& s, const char* what, size_t cap = SIZE_MAX) {
    auto& r = c.rng; Cursor m(s); int big = (int)r.pick({3, 20, 200}); int tail = 0;
    while (tail < 4) {
        if (m.left() == 0) tail++;
        if (r.coin()) { int w = m.get(); c.eq(in.read_char(), w, what); }
        else { size_t n = r.below(big); std::unique_ptr<char[]> b(new char[n]); size_t w = std::min(std::min(n, cap), m.left()); if (w < n) m.failed = true; size_t g = in.read(b.get(), n); c.eq(g, w, "read_count"); c.ok(same(b.get(), s.data() + m.p, w), "read_bytes"); m.p += w; }
        c.eq((bool)in, !m.failed, "reader_state"); c.event("reads");
    }
    c.eq(m.left(), (size_t)0, "reader_left");
}
// everything a buffered reader offers, on top of any source
template<typename R> struct is_fast { enum { value = 0 }; };
template<> struct is_fast<fast_read> { enum { value = 1 }; };
template<typename R> void take(vm::Ctx& c, R& in, Cursor& m, int n, bool raw) { // n raw bytes
    for (int i = 0; i < n; i++) { int w = m.get(); c.eq((int)in.read_char(), w, "buffered_read_char"); if (w != -1 && c.rng.coin(1, 5)) { in.unread_char(); m.p--; w = m.get(); c.eq((int)in.read_char(), w, "unread_then_read"); c.event("unreads"); } } (void)raw;
}
template<typename R> void buffer_ops(vm::Ctx& c, R& in, Cursor& m, size_t cap) {
    auto& r = c.rng; const Str& s = m.s;
    switch (r.below(5)) {
    case 0: { size_t n = r.below(cap + 3), g = r.coin(1, 4) ? in.refill() : in.reserve(n); c.ok(g <= m.left() && g <= cap, "reserve_upper", std::to_string(g)); c.ok(g >= std::min(std::min(n, cap), m.left()), "reserve_lower", std::to_string(g) + " of " + std::to_string(n));
        if (r.coin()) { if constexpr (std::is_void<decltype(in.skip(size_t()))>::value) { size_t k = r.below(g + 1); in.skip(k); m.p += k; } else { size_t k = r.below(g + (r.coin(1, 3) ? 9 : 1)), z = in.skip(k); c.ok(z <= k && z <= m.left() && (k > g || z == k), "skip_consumed"); m.p += z; } } break; }
    case 1: { size_t n = r.coin(1, 5) ? 0 : r.below(cap + 3); const char* d = in.data(n); bool w = n <= std::min(cap, m.left()); c.ok((d != nullptr) == w, "data_available", std::to_string(n)); if (!w) { m.failed = true; break; }
        c.ok(same(d, s.data() + m.p, n), "data_bytes"); size_t l = strnlen(d, cap + 1); c.ok(l <= cap && (l <= m.left() && same(d, s.data() + m.p, l)), "data_terminated"); if (std::count(s.data() + m.p, s.data() + m.p + n, 0) == 0) c.ok(l >= n, "data_long_enough");
        in.counter() = (int)r.below(n + 1); m.p += in.counter(); in.advance(); c.eq(in.counter(), 0, "counter_reset"); c.event("data_windows"); break; }
    case 2: in.skip_whitespaces(); m.ws(); break;
    case 3: { int g = in.read_sign(); c.eq(g, m.sign(), "read_sign"); break; }
    default: { Str w = m.digits(); int cnt = -1; if (w.size() > 18) { m.p -= w.size(); m.failed = m.failed; for (size_t i = 0; i < w.size(); i++) c.eq((int)in.read_char(), m.get(), "digit_chars"); in.read_digits(0LL); m.digits(); break; }
        long long g = r.coin() ? in.template read_digits<long long>(0, &cnt) : in.template read_digits<long long>(); if (cnt >= 0) c.eq(cnt, (int)w.size(), "digit_count"); vm::i128 v = 0; for (char x : w) v = v * 10 + (x - '0'); c.eq((vm::i128)g, v, "read_digits"); break; }
    }
}
template<typename R, typename Line, typename St> void run_simple(vm::Ctx& c, R& in, const std::vector<Piece>& pieces, const Str& s, size_t cap, Line line, St state) {
    auto& r = c.rng; Cursor m(s); size_t end = 0; bool ops = r.coin();
    for (auto& pc : pieces) {
        end += pc.text.size(); bool strm = r.coin(); int nd; size_t begin = end - pc.text.size(); if (m.p > begin) { take(c, in, m, (int)std::max<long>(0, (long)end - (long)m.p), true); continue; }
        switch (pc.kind) {
        case 1: { int g = 0; if (strm) in >> g; else g = in.read_int(); c.eq((vm::i128)g, m.integer(), "read_int"); break; }
        case 2: { vm::i128 g; if (strm) { if (r.coin()) { long long x; in >> x; g = x; } else { long x; in >> x; g = x; } } else g = r.coin() ? in.read_ll() : in.read_l(); c.eq(g, m.integer(), "read_long_long"); break; }
        case 3: { if (r.coin()) { double g; if (strm) in >> g; else g = in.read_double(); long double w = m.real(&nd); near(c, g, w, nd, "read_double"); } else { float g; if (strm) in >> g; else g = in.read_float(); long double w = m.real(&nd); near(c, g, w, nd, "read_float"); } break; }
        case 4: { Str g; if (strm) in >> g; else g = in.read_string(); c.eq(quote(g), quote(m.token()), "read_string"); break; }
        case 5: if (!line(m)) take(c, in, m, (int)pc.text.size(), true); break;
        default: take(c, in, m, (int)pc.text.size(), true); break;
        }
        state(m); c.event("values");
        if (ops && r.coin(1, 3)) { buffer_ops(c, in, m, cap); state(m); }
        if (m.p < end) take(c, in, m, (int)(end - m.p), true);
    }
    for (int k = 0; k < 3; k++) { if (r.coin()) c.eq(quote(in.read_string()), quote(m.token()), "token_at_end"); else c.eq((int)in.read_char(), m.get(), "char_at_end"); }
    Str rest; for (int x; (x = in.read_char()) != -1;) rest.push_back((char)x); c.eq(quote(rest), quote(s.substr(m.p)), "rest"); m.failed = true; state(m);
    c.eq((int)in.read_char(), -1, "end_repeats"); c.eq(in.read_int(), 0, "int_at_end"); c.eq(in.read_string(), Str(), "string_at_end");
}
struct SimpleStream { // one object with both faces
    simple_reader& in; simple_reader_stream st; explicit SimpleStream(simple_reader& in) : in(in), st(in) {}
    template<typename T> SimpleStream& operator>>(T& v) { st >> v; return *this; }
    int read_char() { return in.read_char(); } void unread_char() { in.unread_char(); } int read_int() { return in.read_int(); } long read_l() { return in.read_l(); } long long read_ll() { return in.read_ll(); } float read_float() { return in.read_float(); } double read_double() { return in.read_double(); } Str read_string() { return in.read_string(); }
    size_t refill() { return in.refill(); } size_t reserve(size_t n) { return in.reserve(n); } size_t skip(size_t n) { return in.skip(n); } const char* data(size_t n) { return in.data(n); } int& counter() { return in.counter(); } void advance() { in.advance(); } void skip_whitespaces() { in.skip_whitespaces(); } int read_sign() { return in.read_sign(); } template<typename T> T read_digits(T d = 0, int* n = nullptr) { return in.read_digits<T>(d, n); }
};
struct Source { // any of the readers that can sit under a buffered reader
    std::unique_ptr<chunk_buf> sb; std::unique_ptr<std::istream> is; std::unique_ptr<short_file> f; std::unique_ptr<reader> rd; Str name;
    Source(vm::Ctx& c, const Str& s) {
        auto& r = c.rng; int ml = (int)r.pick({0, 1, 3, 20}); uint64_t seed = r.u64(); name = "chunk " + std::to_string(ml);
        switch (r.below(4)) {
        case 0: rd.reset(new chunk_reader(s, seed, ml)); name = "short reads, " + name; break;
        case 1: rd.reset(new string_reader(s.data(), s.size())); name = "string"; break;
        case 2: sb.reset(new chunk_buf(s, seed, ml)); is.reset(new std::istream(sb.get())); rd.reset(new stream_reader(*is)); name = "stream, " + name; break;
        default: f.reset(new short_file(s, seed, ml, (int)r.below(3))); rd.reset(new file_reader(f->f)); name = "file, " + name; break;
        }
    }
};
Str join(const std::vector<Piece>& v) { Str s; for (auto& p : v) s += p.text; return s; }
size_t pick_cap(vm::Rng& r) { return r.pick({1, 2, 3, 5, 8, 10, 16, 31, 100, 4096}); }
} // namespace

UNIT(plain_readers, 8000, 120000, "one byte string read through a string, stream and file source with short reads: bytes, counts and end-of-input state") {
    auto& r = c.rng; Str s = gen_bytes(r, r.below(r.pick({3, 40, 600}))); uint64_t seed = r.u64(); int ml = (int)r.pick({0, 1, 3, 50}); c.input("plain chunk=%d [%s]", ml, quote(s).c_str());
    { std::vector<char> b(s.begin(), s.end()); b.shrink_to_fit(); string_reader in(b.data(), b.size()); run_base(c, in, s, "string_reader"); }
    if (s.find('\0') == Str::npos) { string_reader in(s.c_str()); run_base(c, in, s, "string_reader_c"); }
    { chunk_buf sb(s, seed, ml); std::istream is(&sb); stream_reader in(is); run_base(c, in, s, "stream_reader"); }
    { short_file f(s, seed, ml, (int)r.below(3)); file_reader in(f.f); run_base(c, in, s, "file_reader"); c.event("file_reads", f.k.calls); }
    { chunk_reader u(s, seed, ml); size_t cap = pick_cap(r); c.note(" buffer=" + std::to_string(cap)); buffered_reader in(u, cap); run_base(c, in, s, "buffered_reader", cap); c.event("refills", u.calls); }
    { chunk_reader u(s, seed, ml); size_t cap = pick_cap(r); buffered_reader a(u, pick_cap(r)); buffered_reader in(a, cap); c.note(" outer=" + std::to_string(cap)); run_base(c, in, s, "nested_buffers", cap); }
    if (s.size() > 2) c.nontrivial_input();
}
UNIT(buffered, 8000, 120000, "one byte string and random reads, unreads, skips, reserves, windows on a buffered reader of any size over any source") {
    auto& r = c.rng; Str s = gen_bytes(r, r.below(r.pick({6, 60, 500}))); Source src(c, s); size_t cap = pick_cap(r); c.input("buffered over %s buffer=%zu [%s]", src.name.c_str(), cap, quote(s).c_str());
    simple_reader in(*src.rd, cap); SimpleStream st(in); Cursor m(s); int steps = (int)r.below(120);
    for (int i = 0; i < steps; i++) {
        switch (r.below(5)) {
        case 0: take(c, st, m, 1, true); break;
        case 1: { size_t n = r.below(r.pick({4, 40})); std::unique_ptr<char[]> b(new char[n]); size_t w = std::min(std::min(n, cap), m.left()); if (w < n) m.failed = true; c.eq(in.read(b.get(), n), w, "buffered_read_count"); c.ok(same(b.get(), s.data() + m.p, w), "buffered_read_bytes"); m.p += w; if (n > cap) c.event("reads_beyond_buffer"); break; }
        case 2: { char d = s.empty() || r.coin() ? '\n' : s[r.below(s.size())]; if (d != (char)-1 || r.coin()) { if (d < 0) d = '\n'; c.eq(quote(in.read_line(d)), quote(m.line(d)), "buffered_line"); } break; }
        case 3: { char g; if (m.left()) { st >> g; c.eq((int)(unsigned char)g, m.get(), "stream_char"); } break; }
        default: buffer_ops(c, st, m, cap); break;
        }
        c.eq((bool)in, !m.failed, "buffered_state"); c.eq((bool)st.st, !m.failed, "stream_state");
    }
    Str rest; for (int x; (x = in.read_char()) != -1;) rest.push_back((char)x); c.eq(quote(rest), quote(s.substr(m.p)), "buffered_rest"); if (steps > 3 && s.size() > 2) c.nontrivial_input();
}
UNIT(simple_reader, 10000, 150000, "one text of numbers, words, lines and raw bytes read back through simple_reader and its stream over any source and buffer size") {
    auto& r = c.rng; auto v = gen_pieces(r, (int)r.below(r.pick({4, 15}))); Str s = join(v); Source src(c, s); size_t cap = pick_cap(r); c.input("simple_reader over %s buffer=%zu [%s]", src.name.c_str(), cap, quote(s).c_str());
    simple_reader in(*src.rd, cap); SimpleStream st(in); run_simple(c, st, v, s, cap, [&](Cursor& m) { c.eq(quote(r.coin() ? in.read_line() : st.st.read_line()), quote(m.line('\n')), "read_line"); return true; }, [&](Cursor& m) { c.eq((bool)in, !m.failed, "simple_state"); });
    if (v.size() > 1) c.nontrivial_input();
}
UNIT(fast_read, 10000, 150000, "the same text read back through fast_read over a file with short reads") {
    auto& r = c.rng; auto v = gen_pieces(r, (int)r.below(r.pick({4, 15}))); Str s = join(v); int ml = (int)r.pick({0, 1, 3, 20}); size_t cap = pick_cap(r); c.input("fast_read chunk=%d buffer=%zu [%s]", ml, cap, quote(s).c_str());
    short_file f(s, r.u64(), ml, (int)r.below(3)); fast_read in(f.f, cap); run_simple(c, in, v, s, cap, [](Cursor&) { return false; }, [](Cursor&) {});
    { short_file g(s, r.u64(), ml, (int)r.below(3)); fast_read raw(g.f, cap); size_t i = 0; while (i < s.size()) { size_t av = raw.available(); c.ok(av <= s.size() - i, "available is not more than what is left"); char ch = 0; raw >> ch; c.eq((int)(unsigned char)ch, (int)(unsigned char)s[i], "raw character"); i++; } c.eq(raw.available(), (size_t)0, "nothing available at the end"); c.eq(raw.read_char(), -1, "end of input"); }
    c.event("file_reads", f.k.calls); if (v.size() > 1) c.nontrivial_input();
}
UNIT(scan_windows, 3000, 40000, "numbers scanned with sscanf from the reader's window, refilled between scans, up to the very end of the input") {
    auto& r = c.rng; int n = (int)r.below(30); std::vector<int> v; Str s; for (int i = 0; i < n; i++) { v.push_back((int)r.edgy(-99999, 99999)); s += std::to_string(v.back()) + (i + 1 < n || r.coin() ? " " : ""); } size_t cap = r.range(16, 40); c.input("scan buffer=%zu [%s]", cap, quote(s).c_str());
    Source src(c, s); simple_reader a(*src.rd, cap); short_file f(s, r.u64(), (int)r.pick({0, 1, 3}), (int)r.below(3)); fast_read b(f.f, cap);
    for (int x : v) { int g = -1; a.reserve(16); if (sscanf(a.data(), "%d%n", &g, &a.counter()) == 1) a.advance(); c.eq(g, x, "scan_simple"); g = -1; b.reserve(16); if (sscanf(b.data(), "%d%n", &g, &b.counter()) == 1) b.advance(); c.eq(g, x, "scan_fast"); c.event("scans"); }
    c.eq(a.read_string(), Str(), "scan_end"); c.eq(b.read_string(), Str(), "scan_end"); if (n > 1) c.nontrivial_input();
}
namespace {
using namespace altruct::io::stream_tokenizer;
bool isws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
// the splitter: skip whitespace, take the longest run of allowed letters
template<typename P> struct Split {
    const Str& s; size_t p = 0; P ok; Split(const Str& s, P ok) : s(s), ok(ok) {}
    Str token(bool allowed) { while (p < s.size() && isws(s[p])) p++; Str o; while (p < s.size() && ok(s[p]) == allowed) o.push_back(s[p++]); return o; }
    std::vector<Str> all() { std::vector<Str> v; for (;;) { while (p < s.size() && isws(s[p])) p++; if (p >= s.size()) return v; v.push_back(token(true)); token(false); } }
};
template<typename TS, typename P> void run_tokens(vm::Ctx& c, const Str& s, P ok, const char* tag) { chunk_buf sb(s, c.rng.u64(), (int)c.rng.pick({0, 1, 4})); std::istream is(&sb); TS t; t.v.resize(c.rng.below(2)); is >> t; c.eq(unbox_tokens(t), Split<P>(s, ok).all(), tag); c.eq(unbox_tokens<size_t>(t, [](const Str& x) { return x.size(); }).size(), t.v.size(), "unbox"); }
} // namespace
UNIT(tokenizer, 8000, 100000, "one text split into tokens by delimiters or allowed letters from a stream with short reads; the pieces are those of a hand-written splitter") {
    auto& r = c.rng; int n = (int)r.below(r.pick({4, 20, 200})); Str s; int k = (int)r.below(3); for (int i = 0; i < n; i++) s.push_back(k == 0 ? (char)r.pick({'a', 'b', ',', ';', ' '}) : k == 1 ? (char)r.range(32, 126) : (char)r.pick({'0', '1', 'x', ',', ' ', '\n', ';', 'Y'})); c.input("tokenizer [%s]", quote(s).c_str());
    run_tokens<tokens_delimited_comma>(c, s, [](char x) { return x != ','; }, "tokens_comma"); run_tokens<tokens_delimited_semicolon>(c, s, [](char x) { return x != ';'; }, "tokens_semicolon"); run_tokens<tokens_delimited_space>(c, s, [](char x) { return x != ' '; }, "tokens_space"); run_tokens<tokens_delimited<'x', ',', 'Y'>>(c, s, [](char x) { return x != 'x' && x != ',' && x != 'Y'; }, "tokens_set");
    run_tokens<tokens_allowed<alphanum_p>>(c, s, [](char x) { return (x >= '0' && x <= '9') || (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z'); }, "tokens_alphanum"); run_tokens<tokens_allowed<allowed_p<'0', '1'>>>(c, s, [](char x) { return x == '0' || x == '1'; }, "tokens_binary");
    // single tokens and separators; the last token ends with the stream
    { std::istringstream is(s); Split<bool (*)(char)> sp(s, [](char x) { return x != ',' && x != ';'; }); token<delimited_p<',', ';'>> t; char sep; for (;;) { while (sp.p < s.size() && isws(s[sp.p])) sp.p++; bool have = sp.p < s.size(); c.eq((bool)(is >> t), have, "token_state"); if (!have) break; c.eq(t.s, sp.token(true), "token"); have = sp.p < s.size(); c.eq((bool)(is >> std::noskipws >> sep >> std::skipws), have, "separator_state"); if (!have) break; c.eq(sep, s[sp.p++], "separator"); } }
    // numbers with one separator letter
    std::vector<int> vi; std::vector<int64_t> vl; Str a, b; int m = (int)r.below(20); char sep = r.pick({' ', ',', ';', ':'}); for (int i = 0; i < m; i++) { vi.push_back((int)r.edgy(INT32_MIN, INT32_MAX)); vl.push_back(r.edgy(INT64_MIN, INT64_MAX)); a += (i ? Str(1, sep) + gen_ws(r) : gen_ws(r)) + std::to_string(vi.back()); b += (i ? Str(1, sep) + gen_ws(r) : gen_ws(r)) + std::to_string(vl.back()); }
    if (r.coin(1, 3)) { Str e = Str(m && r.coin() ? 1 : 0, sep) + gen_ws(r); a += e, b += e; } // trailing separator or blanks
    c.note(" ints [" + quote(a) + "]"); { chunk_buf sb(a, r.u64(), (int)r.pick({0, 1, 3})); std::istream is(&sb); ints_delimited_space t; is >> t; c.eq(t.v, vi, "int_tokens"); c.ok((is.flags() & std::ios_base::skipws) != 0, "skipws_restored"); } { std::istringstream is("7 -12 305"); is >> std::noskipws; ints_delimited_space t; is >> t; c.eq(t.v, std::vector<int>{7, -12, 305}, "int_tokens"); c.ok((is.flags() & std::ios_base::skipws) == 0, "noskipws_restored"); } { chunk_buf sb(b, r.u64(), (int)r.pick({0, 1, 3})); std::istream is(&sb); int64s_delimited_space t; is >> t; c.eq(t.v, vl, "int64_tokens"); }
    if (n > 2) c.nontrivial_input();
}
UNIT(long_input, 60, 600, "a long text of integers (beyond the default buffers) is read back completely and in order") {
    auto& r = c.rng; int n = (int)r.range(20000, c.thorough ? 400000 : 60000); std::vector<long long> v(n); Str s; for (auto& x : v) { x = (long long)r.edgy(INT64_MIN, INT64_MAX) >> r.below(63); s += std::to_string(x); s.push_back(r.coin(1, 9) ? '\n' : ' '); } c.input("long_input n=%d bytes=%zu", n, s.size());
    { short_file f(s, r.u64(), (int)r.pick({0, 5000}), 0); fast_read in(f.f, r.coin() ? 1 << 20 : 1000); for (int i = 0; i < n; i++) c.eq(in.read_ll(), v[i], "long_fast"); c.eq(in.read_string(), Str(), "long_fast_end"); }
    { Source src(c, s); simple_reader in(*src.rd, r.coin() ? 1 << 20 : 777); for (int i = 0; i < n; i++) c.eq(in.read_ll(), v[i], "long_simple"); c.eq(in.read_string(), Str(), "long_simple_end"); }
    c.nontrivial_input();
}
