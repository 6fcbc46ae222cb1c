// C31: every writer against the concatenation of what was written; numbers read back; stream formatting of library types.
#include "vm.h"
#include <array>
#include <math.h>
#include <stdio.h>
#include <limits>
#include <memory>
#include <string>
#include "altruct/io/writer.h"
#include "altruct/io/reader.h"
#include "altruct/io/fast_io.h"
#include "altruct/io/iostream_overloads.h"

using namespace altruct::io;
namespace am = altruct::math;

namespace {
typedef std::string Str;
Str quote(const Str& s) { Str o; char b[8]; for (unsigned char c : s) { if (o.size() > 700) { o += "..."; break; } if (c >= 0x20 && c < 0x7f && c != '\\') o.push_back((char)c); else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } } return o; }
// a sink that records what reaches it, and when
struct record_writer : writer { Str s; uint64_t flushes = 0, writes = 0; record_writer& write_char(int c) override { s.push_back((char)c); writes++; return *this; } record_writer& write(const char* b, size_t n) override { s.append(b, n); writes++; return *this; } record_writer& flush() override { flushes++; return *this; } };
struct sink_cookie { Str s; int maxlen; vm::Rng r; uint64_t calls; };
ssize_t sink_write(void* v, const char* b, size_t n) { sink_cookie* k = (sink_cookie*)v; k->calls++; k->s.append(b, n); return (ssize_t)n; } // (stdio takes a short write of a cookie for an error, so all is taken)
struct sink_file { sink_cookie k; FILE* f; std::vector<char> vb; sink_file(uint64_t seed, int maxlen, int mode) : k{ "", maxlen, vm::Rng(seed), 0 } { cookie_io_functions_t io = { nullptr, sink_write, nullptr, nullptr }; f = fopencookie(&k, "w", io); if (mode == 1) setvbuf(f, nullptr, _IONBF, 0); else if (mode == 2) { vb.resize(7); setvbuf(f, vb.data(), _IOFBF, 7); } } ~sink_file() { fclose(f); } };
Str gen_bytes(vm::Rng& r, size_t n) { Str s(n, 0); int k = (int)r.below(3); for (auto& x : s) x = k == 0 ? (char)r.below(256) : k == 1 ? (char)r.pick({0, 10, 13, 32, 127, 128, 255, 97}) : (char)('a' + r.below(26)); return s; }
size_t pick_cap(vm::Rng& r) { return r.pick({1, 2, 3, 5, 8, 10, 16, 31, 100, 4096}); }

// decimal text exactly denoting a rounding of f to `prec` decimals (the value, not the text, is claimed; half an ulp of slack)
void check_real(vm::Ctx& c, const Str& t, double f, int prec, bool sci, const char* tag) {
    auto bad = [&](const char* why) { c.fail(tag, Str(tag) + ": \"" + quote(t) + "\" for " + vm::str(f) + " precision " + std::to_string(prec) + ": " + why); }; c.checks();
    size_t p = 0; if (t[p] == '-') { if (!(f < 0)) bad("minus sign"); p++; } else if (f < 0) bad("no minus sign");
    size_t a = p; while (p < t.size() && isdigit((unsigned char)t[p])) p++; if (p == a) bad("no integer digits"); if (p - a > 1 && t[a] == '0') bad("leading zero"); if (sci && p - a != 1) bad("not one leading digit");
    if (prec > 0) { if (t[p] != '.') bad("no point"); p++; size_t b = p; while (p < t.size() && isdigit((unsigned char)t[p])) p++; if ((int)(p - b) != prec) bad("digits after the point"); }
    long ex = 0; if (sci) { if (t[p] != 'e') bad("no exponent"); p++; if (t[p] != '+' && t[p] != '-') bad("no exponent sign"); size_t b = p + 1; p++; while (p < t.size() && isdigit((unsigned char)t[p])) p++; if (p - b != 3) bad("exponent digits"); ex = atol(t.c_str() + b - 1); }
    if (p != t.size()) bad("trailing text");
    long double v = strtold(t.c_str(), nullptr), tol = 0.5L * powl(10, -prec + (sci ? ex : 0)) * (1 + 1e-9L) + fabsl((long double)f) * 4e-15L; if (!(fabsl(v - (long double)f) <= tol)) bad("value"); if (sci && f != 0 && fabsl(v) < powl(10, ex) * (1 - 1e-12L)) bad("not normalised");
}
double gen_real(vm::Rng& r, bool sci) {
    double f; switch (r.below(8)) {
    case 0: f = (double)r.edgy(-1000, 1000); break;
    case 1: f = (double)r.range(-2000000, 2000000) / 1000; break;
    case 2: { double p = pow(10.0, (double)r.range(-6, 17)); f = p; for (int k = (int)r.range(-3, 3); k; k += k < 0 ? 1 : -1) f = nextafter(f, k < 0 ? 0 : 1e300); break; } // around powers of ten
    case 3: { f = pow(10.0, (double)r.range(0, 6)) - pow(10.0, -(double)r.range(1, 14)) * (double)r.range(1, 9); break; } // 9.99..
    case 4: f = ldexp((double)r.u64(), (int)r.range(-90, 0)); break;
    case 5: f = pow(10.0, (double)r.range(-8, 30)) * (1 + (double)r.below(1000) / 1000); break;
    case 6: f = ((double)r.range(-99999, 99999) + 0.5) / 1000; break;
    default: f = sci ? ldexp(1 + (double)r.below(1 << 20) / (1 << 20), (int)r.range(-960, 990)) : ldexp((double)r.u64(), (int)r.range(-64, 200)); break; }
    return r.coin(1, 3) ? -f : f;
}
// one random item through a writer with the simple face; returns the exact text, or checks what was appended for reals
template<typename W, typename ST> void put(vm::Ctx& c, W& w, ST& st, Str& want) {
    auto& r = c.rng; bool strm = r.coin();
    switch (r.below(9)) {
    case 0: { char x = (char)r.below(256); if (strm) st << x; else w.write_char(r.coin() ? (int)x : (int)(unsigned char)x); want.push_back(x); break; }
    case 1: { Str s = gen_bytes(r, r.below(r.pick({4, 30, 200}))); if (strm) st << s; else w.write_string(s); want += s; break; }
    case 2: { Str s = gen_bytes(r, r.below(r.pick({4, 30}))); s = s.substr(0, s.find('\0')); if (strm) st << s.c_str(); else w.write_string(s.c_str()); want += s; break; }
    case 3: { int v = (int)r.edgy(INT32_MIN, INT32_MAX); if (strm) st << v; else w.write_int(v); want += std::to_string(v); break; }
    case 4: { long long v = r.edgy(INT64_MIN, INT64_MAX); if (strm) { if (r.coin()) st << v; else st << (long)v; } else w.write_ll(v); want += std::to_string(v); break; }
    case 5: { int len = (int)r.below(r.pick({4, 20, 45})); int64_t v = r.edgy(INT64_MIN, INT64_MAX) >> r.below(64); w.write_integral_number(v, len); Str d = vm::str((vm::u128)(v < 0 ? -(vm::i128)v : (vm::i128)v)); if (v == 0 && len == 0) d = ""; while ((int)d.size() < len) d = "0" + d; want += (v < 0 ? "-" : "") + d; break; }
    case 6: { uint64_t v = r.edgyu(~0ull); w.write_integral_number(v); want += std::to_string(v); vm::i128 q = (vm::i128)(((vm::u128)r.u64() << 64) | r.u64()) >> r.below(127); w.write_integral_number(q); want += vm::str(q); int8_t b = (int8_t)r.edgy(-128, 127); w.write_integral_number(b); want += std::to_string((int)b); break; }
    default: { // printf-style: the window is written by hand and advanced over
        char t[16]; snprintf(t, sizeof t, "%x", (unsigned)r.bits(32)); size_t room = w.reserve(9); c.eq(room, w.available(), "reserve_returns_room"); if (room < 9) break; char* d = w.data(9); c.ok(d != nullptr, "data_null"); c.eq(w.data(room + 1) == nullptr, false || w.available() < room + 1, "data_too_much"); size_t av = w.available(); if (av < 9) break; if (av < 300 && r.coin(1, 3)) { memset(w.data(), 'q', av); w.advance(); want += Str(av, 'q'); c.eq(w.available(), size_t(0), "full_window"); break; } snprintf(w.data(), av, "%s", t); w.advance(); want += t; break; }
    }
    c.event("items");
}
} // namespace

UNIT(plain_writers, 6000, 90000, "one sequence of character and block writes and flushes to string, stream and file writers; the sink holds exactly the concatenation") {
    auto& r = c.rng; int n = (int)r.below(20); size_t cap = r.below(r.pick({5, 60, 400})); int ml = (int)r.pick({0, 1, 3}); c.input("plain writers ops=%d capacity=%zu chunk=%d", n, cap, ml); Str want;
    std::unique_ptr<char[]> buf(new char[cap]); sink_file f(r.u64(), ml, (int)r.below(3)); std::ostringstream os; record_writer rec; size_t scap = pick_cap(r);
    { string_writer a(buf.get(), cap); file_writer b(f.f); stream_writer d(os); buffered_writer e(rec, scap); buffered_writer g(e, pick_cap(r)); bool nested = r.coin(); writer& buffered = nested ? (writer&)g : (writer&)e; writer* all[] = { &a, &b, &d, &buffered };
      for (int i = 0; i < n; i++) {
          int op = (int)r.below(5); if (op == 0) { int x = (int)r.below(256); if (r.coin()) x = (int)(signed char)x; for (auto w : all) w->write_char(x); want.push_back((char)x); }
          else if (op == 1) { for (auto w : all) w->flush(); c.eq(quote(f.k.s), quote(want), "file_flushed"); c.eq(quote(os.str()), quote(want), "stream_flushed"); c.eq(quote(rec.s), quote(want), "buffered_flushed"); c.event("flushes"); }
          else { Str s = gen_bytes(r, r.below(r.pick({4, 50, 300}))); for (auto w : all) w->write(s.data(), s.size()); want += s; c.event("bytes", s.size()); }
          c.eq(quote(Str(buf.get(), std::min(cap, want.size()))), quote(want.substr(0, cap)), "string_writer"); c.ok(want.compare(0, rec.s.size(), rec.s) == 0, "buffered_prefix"); if (!nested) c.ok(want.size() - rec.s.size() <= scap, "buffered_lag");
      } }
    c.eq(quote(f.k.s), quote(want), "file_writer"); c.eq(quote(os.str()), quote(want), "stream_writer"); c.eq(quote(rec.s), quote(want), "buffered_writer"); c.note(" " + quote(want)); if (n > 2) c.nontrivial_input();
}
UNIT(simple_writer, 10000, 150000, "one sequence of strings, integers of all widths and printf-style windows through simple_writer and its stream, any buffer size") {
    auto& r = c.rng; int n = (int)r.below(r.pick({5, 30})); size_t cap = pick_cap(r); c.input("simple_writer ops=%d buffer=%zu", n, cap); Str want; record_writer rec;
    { simple_writer w(rec, cap); simple_writer_stream st(w); for (int i = 0; i < n; i++) { put(c, w, st, want); if (r.coin(1, 6)) { w.flush(); c.eq(quote(rec.s), quote(want), "simple_flushed"); c.eq(w.available(), cap, "available_after_flush"); } else { c.eq(want.size() - rec.s.size() + w.available(), cap, "room"); c.ok(want.compare(0, rec.s.size(), rec.s) == 0, "simple_prefix"); } } }
    c.eq(quote(rec.s), quote(want), "simple_writer"); c.note(" " + quote(want)); if (n > 2) c.nontrivial_input();
}
UNIT(fast_write, 10000, 150000, "the same sequence through fast_write to a file, any buffering") {
    auto& r = c.rng; int n = (int)r.below(r.pick({5, 30})); size_t cap = pick_cap(r); c.input("fast_write ops=%d buffer=%zu", n, cap); Str want; sink_file f(r.u64(), (int)r.pick({0, 1, 3}), (int)r.below(3));
    { fast_write w(f.f, cap); for (int i = 0; i < n; i++) { put(c, w, w, want); if (r.coin(1, 6)) { w.flush(); c.eq(quote(f.k.s), quote(want), "fast_flushed"); c.eq(w.available(), cap, "fast_available"); } else c.ok(want.compare(0, f.k.s.size(), f.k.s) == 0, "fast_prefix"); } }
    c.eq(quote(f.k.s), quote(want), "fast_write"); c.event("file_writes", f.k.calls); c.note(" " + quote(want)); if (n > 2) c.nontrivial_input();
}
UNIT(reals, 20000, 400000, "one double or float at one precision, fixed or scientific: well-formed digits, value within half a unit of the last digit, same from both writers, read back") {
    auto& r = c.rng; bool sci = r.coin(); int prec = (int)r.pick({0, 1, 2, 3, 6, 6, 6, 9, 12, 15, 20}); double f = gen_real(r, sci); bool fl = r.coin(1, 4) && fabs(f) < 1e30 && (f == 0 || fabs(f) > 1e-30); if (fl) f = (float)f; c.input("real %a = %.17g precision=%d %s%s", f, f, prec, sci ? "scientific" : "fixed", fl ? " float" : "");
    record_writer rec; { simple_writer w(rec, 64); if (fl) w.write_float((float)f, prec, sci); else w.write_double(f, prec, sci); } check_real(c, rec.s, f, prec, sci, "simple_real");
    sink_file k(1, 0, 0); { fast_write w(k.f, 64); if (fl) w.write_float((float)f, prec, sci); else w.write_double(f, prec, sci); } c.eq(k.k.s, rec.s, "fast_real");
    { record_writer q; { simple_writer w(q); simple_writer_stream st(w); if (fl) st << (float)f; else st << f; } check_real(c, q.s, f, 6, false, "stream_real"); sink_file z(1, 0, 0); { fast_write w(z.f); if (fl) w << (float)f; else w << f; } c.eq(z.k.s, q.s, "fast_stream_real"); }
    { string_reader in(rec.s.data(), rec.s.size()); simple_reader rd(in, 16); double g = rd.read_double(); c.checks(); long double tol = 0.5L * powl(10, -prec + (sci && f != 0 ? (int)floor(log10(fabs(f))) + 1 : 0)) + fabsl((long double)f) * 1e-14L; if (!(fabsl((long double)g - f) <= tol)) c.fail("real_roundtrip", "real_roundtrip: " + rec.s + " read back as " + vm::str(g)); }
    c.nontrivial_input();
}
UNIT(roundtrip, 3000, 40000, "a list of integers and words written by one writer and read by one reader, any two buffer sizes") {
    auto& r = c.rng; int n = (int)r.below(60); std::vector<long long> v(n); std::vector<Str> w(n); Str all; size_t cw = pick_cap(r), cr = pick_cap(r); c.input("roundtrip n=%d buffers=%zu,%zu", n, cw, cr);
    record_writer rec; sink_file k(r.u64(), (int)r.pick({0, 1, 3}), 0); { simple_writer a(rec, cw); simple_writer_stream st(a); fast_write b(k.f, cw); for (int i = 0; i < n; i++) { v[i] = r.edgy(INT64_MIN, INT64_MAX); for (int l = (int)r.range(1, 8); l--;) w[i].push_back((char)r.range(0x21, 0xff)); st << v[i] << ' ' << w[i] << '\n'; b << v[i] << ' ' << w[i] << '\n'; } }
    c.eq(quote(rec.s), quote(k.k.s), "writers_agree"); string_reader in(rec.s.data(), rec.s.size()); simple_reader rd(in, cr); FILE* f = rec.s.empty() ? fopen("/dev/null", "r") : fmemopen((void*)rec.s.data(), rec.s.size(), "r"); { fast_read fr(f, cr); for (int i = 0; i < n; i++) { c.eq(rd.read_ll(), v[i], "roundtrip_int"); c.eq(quote(rd.read_string()), quote(w[i]), "roundtrip_word"); c.eq(fr.read_ll(), v[i], "roundtrip_fast_int"); c.eq(quote(fr.read_string()), quote(w[i]), "roundtrip_fast_word"); } c.eq(rd.read_char(), n ? '\n' : -1, "roundtrip_end"); } fclose(f);
    c.note(" " + quote(rec.s)); if (n > 1) c.nontrivial_input();
}

namespace {
typedef am::modulo<int, 1007, am::modulo_storage::CONSTANT> mod; typedef am::moduloX<int> modx; typedef am::fraction<int> frac; typedef am::polynom<int> poly;
Str I(long long v) { return std::to_string(v); }
struct Opt { bool fpair = false, fden = false, mpair = false, mmod = false, pvec = true; };
// the documented text of each type, written independently
Str text(int v, const Opt&) { return I(v); }
Str text(const frac& f, const Opt& o) { return o.fpair ? "{" + I(f.p) + ", " + I(f.q) + "}" : o.fden || f.q != 1 ? I(f.p) + "/" + I(f.q) : I(f.p); }
Str text(const mod& m, const Opt& o) { return o.mpair ? "{" + I(m.v) + ", 1007}" : o.mmod ? I(m.v) + " (mod 1007)" : I(m.v); }
Str text(const modx& m, const Opt& o) { return o.mpair ? "{" + I(m.v) + ", " + I(m.M()) + "}" : o.mmod ? I(m.v) + " (mod " + I(m.M()) + ")" : I(m.v); }
template<typename C> Str list(const C& v, const Opt& o);
template<typename A, typename B> Str text(const std::pair<A, B>& p, const Opt& o) { return "{" + text(p.first, o) + ", " + text(p.second, o) + "}"; }
template<typename T> Str text(const std::vector<T>& v, const Opt& o) { return list(v, o); }
template<typename T> Str text(const std::set<T>& v, const Opt& o) { return list(v, o); }
template<typename C> Str list(const C& v, const Opt& o) { Str s = "{"; size_t k = 0; for (auto& x : v) { if (k++) s += ", "; s += text(x, o); } return s + "}"; }
Str text(const poly& p, const Opt& o) {
    if (o.pvec) return list(p.c, o); std::vector<int> a = p.c; int h = (int)a.size() - 1; while (h > 0 && !a[h]) h--; if (h < 0) return "0"; Str s;
    for (int i = h; i >= 0; i--) { if (i < h && !a[i]) continue; if (i < h) s += " + "; s += I(a[i]); if (i > 0) s += " x"; if (i > 1) s += "^" + I(i); } return s;
}
template<typename T> Str shown(const T& v) { std::ostringstream os; os << v; return os.str(); }
// the same value under nested manipulators; the settings are restored afterwards
template<typename T> void check(vm::Ctx& c, const T& v, const Opt& o, const char* tag) {
    Opt d; c.eq(shown(v), text(v, d), tag); { std::ostringstream os; os << io_fraction_as_pair(o.fpair) << io_fraction_denominator(o.fden) << io_modulo_as_pair(o.mpair) << io_modulo_modulus(o.mmod) << io_polynom_as_vector(o.pvec) << v; c.eq(os.str(), text(v, o), tag); }
    { io_modulo_as_pair a(o.mpair); io_fraction_as_pair b(o.fpair); { Opt n; n.mmod = o.mmod; n.fden = o.fden; n.mpair = !o.mpair; n.fpair = !o.fpair; n.pvec = !o.pvec; io_modulo_modulus e(n.mmod); io_fraction_denominator f(n.fden); io_modulo_as_pair x(n.mpair); io_fraction_as_pair y(n.fpair); io_polynom_as_vector z(n.pvec); c.eq(shown(v), text(v, n), tag); } Opt n; n.mpair = o.mpair; n.fpair = o.fpair; c.eq(shown(v), text(v, n), "manipulators_restored"); }
    c.eq(shown(v), text(v, d), "manipulators_restored");
}
} // namespace
UNIT(stream_formats, 8000, 100000, "one value of each library type and nested containers under every manipulator setting: exact text, settings restored") {
    auto& r = c.rng; c.input("stream_formats seed=%llu", (unsigned long long)r.s); Opt o; o.fpair = r.coin(1, 3); o.fden = r.coin(); o.mpair = r.coin(1, 3); o.mmod = r.coin(); o.pvec = r.coin();
    auto num = [&] { return (int)r.edgy(-30000, 30000); }; auto rf = [&] { int q = (int)r.range(1, 50); return frac(num(), r.coin() ? 1 : q); }; std::vector<int> v; for (int n = (int)r.below(5); n--;) v.push_back(r.coin(1, 4) ? 0 : num()); c.note(" " + vm::str(v));
    check(c, v, o, "vector"); check(c, std::set<int>(v.begin(), v.end()), o, "set"); check(c, std::make_pair(num(), v), o, "pair"); check(c, rf(), o, "fraction"); check(c, mod(num()), o, "modulo"); check(c, modx(num(), (int)r.range(1, 5000)), o, "moduloX"); check(c, std::vector<std::pair<frac, std::vector<mod>>>{ { rf(), { num(), num() } }, { rf(), {} } }, o, "nested");
    { poly p(v); check(c, p, o, "polynom"); }
    if (r.coin(1, 8)) { std::vector<int> w((size_t)r.range(9, 40)); for (auto& x : w) x = r.coin(1, 3) ? 0 : num(); check(c, poly(w), o, "polynom_long"); }
    if (r.coin(1, 50)) { std::vector<int> w((size_t)r.range(900, 2500)); for (auto& x : w) x = num(); check(c, w, o, "vector_long"); check(c, std::set<int>(w.begin(), w.end()), o, "set_long"); }
    { int64_t M = r.range(1LL << 33, 1LL << 61), a = (int64_t)r.below((uint64_t)M); am::moduloX<int64_t> x(a, M); Str sa = std::to_string(a), sm = std::to_string(M); c.eq(shown(x), sa, "modulo_wide"); { io_modulo_as_pair q(true); c.eq(shown(x), "{" + sa + ", " + sm + "}", "modulo_wide_pair"); } { io_modulo_modulus q(true); c.eq(shown(x), sa + " (mod " + sm + ")", "modulo_wide_modulus"); } }
    { Str dl = r.pick({ ",", "", " ; ", "\n" }), e; std::ostringstream os; output_container(os, v, dl); for (size_t i = 0; i < v.size(); i++) e += (i ? dl : Str()) + std::to_string(v[i]); c.eq(os.str(), "{" + e + "}", "delimiter"); }
    { std::map<int, frac> m; for (int x : v) m[x] = rf(); std::vector<std::pair<int, frac>> w(m.begin(), m.end()); c.eq(shown(m), list(w, Opt()), "map"); std::array<int, 3> a = { num(), num(), num() }; c.eq(shown(a), list(a, Opt()), "array"); std::unordered_set<int> us; if (v.size()) us.insert(v[0]); c.eq(shown(us), list(us, Opt()), "unordered_set"); std::unordered_map<int, int> um; for (int x : v) um[x] = x / 2; c.eq(shown(um), list(std::vector<std::pair<int, int>>(um.begin(), um.end()), Opt()), "unordered_map"); }
    int a = num(), b = num(), d = num(), e = num(); c.eq(shown(am::triple<int>{ a, b, d }), "{" + I(a) + ", " + I(b) + ", " + I(d) + "}", "triple"); c.eq(shown(am::vector2d<int>(a, b)), "{" + I(a) + ", " + I(b) + "}", "vector2d");
    am::matrix<int> m(2, 3); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) m[i][j] = num(); c.eq(shown(m), "{{" + I(m[0][0]) + ", " + I(m[0][1]) + ", " + I(m[0][2]) + "}, {" + I(m[1][0]) + ", " + I(m[1][1]) + ", " + I(m[1][2]) + "}}", "matrix");
    c.eq(shown(am::symbolic("xy" + I(a))), "xy" + I(a), "symbolic");
    namespace cl = am::cl3; cl::rotor<int> ro(a, b, d, e); cl::vector<int> ve(b, d, e, a); Str sr = "{" + I(a) + ", " + I(b) + ", " + I(d) + ", " + I(e) + "}", sv = "{" + I(b) + ", " + I(d) + ", " + I(e) + ", " + I(a) + "}"; c.eq(shown(ro), sr, "rotor"); c.eq(shown(ve), sv, "cl3_vector"); c.eq(shown(cl::multivector<int>(ro, ve)), "{" + sr + ", " + sv + "}", "cl3_multivector");
    namespace pg = am::pga; pg::blade0<int> b0(a); pg::blade1<int> b1(a, am::vector3d<int>(b, d, e)); pg::blade2E<int> bE(am::vector3d<int>(b, d, e)); pg::blade2e<int> be(am::vector3d<int>(e, b, a)); pg::blade3<int> b3(d, am::vector3d<int>(a, b, e)); pg::blade4<int> b4(e);
    Str t0 = I(a) + " id", t1 = I(a) + " e0 + " + I(b) + " e1 + " + I(d) + " e2 + " + I(e) + " e3", tE = I(b) + " e23 + " + I(d) + " e31 + " + I(e) + " e12", te = I(e) + " e01 + " + I(b) + " e02 + " + I(a) + " e03", t3 = I(d) + " e123 + " + I(a) + " e032 + " + I(b) + " e013 + " + I(e) + " e021", t4 = I(e) + " e0123";
    c.eq(shown(pg::zero<int>()), Str("0"), "pga_zero"); c.eq(shown(b0), t0, "blade0"); c.eq(shown(b1), t1, "blade1"); c.eq(shown(bE), tE, "blade2E"); c.eq(shown(be), te, "blade2e"); c.eq(shown(b3), t3, "blade3"); c.eq(shown(b4), t4, "blade4");
    pg::blade02E<int> c02(b0, bE); pg::blade2e4<int> c24(be, b4); pg::blade024<int> c024(c02, c24); pg::blade13<int> c13(b1, b3);
    c.eq(shown(c02), t0 + " + " + tE, "blade02E"); c.eq(shown(pg::blade02e<int>(b0, be)), t0 + " + " + te, "blade02e"); c.eq(shown(pg::blade22<int>(bE, be)), tE + " + " + te, "blade22"); c.eq(shown(pg::blade2E4<int>(bE, b4)), tE + " + " + t4, "blade2E4"); c.eq(shown(c24), te + " + " + t4, "blade2e4"); c.eq(shown(c024), t0 + " + " + tE + " + " + te + " + " + t4, "blade024"); c.eq(shown(c13), t1 + " + " + t3, "blade13"); c.eq(shown(pg::multivector<int>(c024, c13)), t0 + " + " + tE + " + " + te + " + " + t4 + " + " + t1 + " + " + t3, "multivector");
    c.nontrivial_input();
}
