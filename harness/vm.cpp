#include "vm.h"
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <typeinfo>
#include <exception>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define HAVE_ASAN_BYTES 1
#endif
#endif
#include <malloc.h>

namespace vm {

int64_t Tracked::live = 0;
int64_t Tracked::bad = 0;

static Unit*& head() { static Unit* h = nullptr; return h; }
Unit::Unit(const char* name, uint64_t quick, uint64_t thorough, const char* rule, void (*fn)(Ctx&))
    : name(name), quick(quick), thorough(thorough), fn(fn), rule(rule), next(head()) { head() = this; }

struct State {                 // shared with the runner through a file: survives a crash
    volatile uint64_t index;
    volatile uint64_t done;    // cases completed
    volatile uint64_t status;  // 0 running, 1 finished, 2 case timeout
    char desc[16 << 10];
};
static State* state = nullptr;
static size_t desc_len = 0;
static uint64_t n_checks = 0;
static std::map<std::string, uint64_t> events;
static std::unordered_set<uint64_t> hashes;
static uint64_t n_nontrivial = 0;

void Ctx::input(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(state->desc, sizeof state->desc, fmt, ap);
    va_end(ap);
    desc_len = std::min<size_t>(n < 0 ? 0 : n, sizeof state->desc - 1);
}
void Ctx::note(const std::string& s) {
    size_t room = sizeof state->desc - 1 - desc_len;
    size_t n = std::min(room, s.size());
    memcpy(state->desc + desc_len, s.data(), n);
    desc_len += n;
    state->desc[desc_len] = 0;
}
void Ctx::nontrivial(uint64_t h) {
    n_nontrivial++;
    if (hashes.size() < 200000) hashes.insert(mix64(h ^ hash_str(unit)));
}
void Ctx::nontrivial_input() { nontrivial(hash_str(state->desc)); }
void Ctx::event(const char* name, uint64_t n) { events[name] += n; }
void Ctx::checks(uint64_t n) { n_checks += n; }
void Ctx::fail(const std::string& tag, const std::string& msg) { throw Failure{ tag, msg }; }

size_t allocated_bytes() {
#ifdef HAVE_ASAN_BYTES
    return __sanitizer_get_current_allocated_bytes();
#else
    return mallinfo2().uordblks;
#endif
}

static std::string json(const std::string& s) {
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += ch;
    }
    return r + "\"";
}
static void on_timer(int) { if (state) state->status = 2; _exit(97); }

} // namespace vm

using namespace vm;

int main(int argc, char** argv) {
    std::string unit, out, statef, tier = "quick";
    uint64_t seed = 1, from = 0, step = 1, only = ~0ull; int limit = 20, max_fail = 3;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(++i < argc ? argv[i] : ""); };
        if (a == "--list") {
            for (Unit* u = head(); u; u = u->next)
                printf("%s\t%llu\t%llu\t%s\n", u->name, (unsigned long long)u->quick, (unsigned long long)u->thorough, u->rule);
            return 0;
        }
        else if (a == "--unit") unit = val();
        else if (a == "--out") out = val();
        else if (a == "--state") statef = val();
        else if (a == "--tier") tier = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--from") from = strtoull(val().c_str(), 0, 10);
        else if (a == "--step") step = strtoull(val().c_str(), 0, 10);
        else if (a == "--only") only = strtoull(val().c_str(), 0, 10);
        else if (a == "--cpu") limit = atoi(val().c_str());
        else if (a == "--max-fail") max_fail = atoi(val().c_str());
    }
    Unit* u = head();
    while (u && unit != u->name) u = u->next;
    if (!u) { fprintf(stderr, "no unit %s\n", unit.c_str()); return 98; }
    if (statef.empty()) {
        state = (State*)mmap(0, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    } else {
        int fd = open(statef.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(State)) != 0) return 98;
        state = (State*)mmap(0, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    if (state == MAP_FAILED) return 98;
    state->status = 0; state->done = 0; state->desc[0] = 0;
    FILE* fo = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!fo) return 98;
    signal(SIGPROF, on_timer);
    uint64_t n = tier == "thorough" ? u->thorough : u->quick;
    uint64_t cases = 0; int failed = 0, samples = 0;
    uint64_t b = from, e = n;
    if (only != ~0ull) b = only, e = only + 1, step = 1;
    for (uint64_t i = b; i < e && failed < max_fail; i += step) {
        Ctx c;
        c.rng = Rng(mix64(mix64(seed) ^ hash_str(u->name)) + mix64(i * 2 + 1));
        c.index = i; c.count = n; c.unit = u->name; c.thorough = tier == "thorough";
        state->index = i; state->desc[0] = 0; desc_len = 0;
        itimerval tv = {}; tv.it_value.tv_sec = limit;
        setitimer(ITIMER_PROF, &tv, 0);
        std::string tag, msg; bool bad = false;
        try { u->fn(c); }
        catch (const Failure& f) { bad = true; tag = f.tag; msg = f.msg; }
        catch (const std::exception& x) { bad = true; tag = "exception"; msg = std::string("unexpected exception ") + typeid(x).name() + ": " + x.what(); }
        catch (...) { bad = true; tag = "exception"; msg = "unexpected exception"; }
        tv.it_value.tv_sec = 0; setitimer(ITIMER_PROF, &tv, 0);
        cases++; state->done = cases;
        if (bad) {
            failed++;
            fprintf(fo, "{\"type\":\"violation\",\"unit\":%s,\"case\":%llu,\"tag\":%s,\"msg\":%s,\"input\":%s}\n", json(u->name).c_str(),
                (unsigned long long)i, json(tag).c_str(), json(msg).c_str(), json(state->desc).c_str());
            fflush(fo);
        } else if (samples < 1 && i >= n / 3 && state->desc[0]) {
            samples++;
            fprintf(fo, "{\"type\":\"sample\",\"unit\":%s,\"case\":%llu,\"input\":%s}\n", json(u->name).c_str(), (unsigned long long)i,
                json(std::string(state->desc).substr(0, 600)).c_str());
        }
    }
    fprintf(fo, "{\"type\":\"stats\",\"unit\":%s,\"cases\":%llu,\"checks\":%llu,\"nontrivial\":%llu,\"events\":{", json(u->name).c_str(),
        (unsigned long long)cases, (unsigned long long)n_checks, (unsigned long long)n_nontrivial);
    bool first = true;
    for (auto& ev : events) { fprintf(fo, "%s%s:%llu", first ? "" : ",", json(ev.first).c_str(), (unsigned long long)ev.second); first = false; }
    fprintf(fo, "}}\n");
    fclose(fo);
    if (!out.empty()) {
        FILE* fh = fopen((out + ".hashes").c_str(), "wb");
        if (fh) { for (uint64_t h : hashes) fwrite(&h, 8, 1, fh); fclose(fh); }
    }
    state->status = 1;
    fflush(stdout);
    _exit(failed ? 1 : 0);
}
