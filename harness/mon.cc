#include <time.h>
#include "mon.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <chrono>
#include <unordered_set>

namespace mon {
std::vector<TestDef>& tests() { static std::vector<TestDef> t; return t; }
Reg::Reg(const char* name, TestFn fn, int weight) { tests().push_back({name, fn, weight}); }

struct State { char test[64]; uint64_t idx; uint64_t done; char desc[3900]; };
static State* g_state;
static FILE* g_out;
static std::map<std::string, uint64_t> g_counts;
static uint64_t g_fails;

static std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}

void Case::d(const char* fmt, ...) {
    char b[1024];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (desc.size() < 3000) desc += b;
    if (local) return;
    if (g_state) { strncpy(g_state->desc, desc.c_str(), sizeof(g_state->desc) - 1); }
}
void Case::fail(const char* kind, const std::string& key, const char* fmt, ...) {
    char b[1024];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (local) { local->fails.push_back({kind, key, b, desc}); return; }
    g_fails++;
    if (g_fails > 200) return;
    fprintf(g_out, "{\"t\":\"fail\",\"test\":\"%s\",\"idx\":%llu,\"kind\":\"%s\",\"key\":\"%s\",\"msg\":\"%s\",\"desc\":\"%s\"}\n",
            test.c_str(), (unsigned long long)idx, kind, jesc(key).c_str(), jesc(b).c_str(), jesc(desc).c_str());
    fflush(g_out);
}
void Case::count(const std::string& name, uint64_t n) { (local ? local->counts : g_counts)[name] += n; }
static uint64_t fnv(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ull;
    return h;
}
uint64_t case_seed(const char* test, uint64_t seed, uint64_t i) { return fnv(test) ^ (seed * 0x9E3779B97F4A7C15ull) ^ ((i + 1) * 0xD6E8FEB86659FD93ull); }
}  // namespace mon

using namespace mon;

int main(int argc, char** argv) {
    uint64_t seed = 1, cases = 100, shard = 0, shards = 1, start = 0; long long only = -1;
    std::string outp, statep, sel;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--cases") cases = strtoull(v.c_str(), 0, 10);
        else if (a == "--shard") shard = strtoull(v.c_str(), 0, 10);
        else if (a == "--shards") shards = strtoull(v.c_str(), 0, 10);
        else if (a == "--start") start = strtoull(v.c_str(), 0, 10);
        else if (a == "--only") only = atoll(v.c_str());
        else if (a == "--out") outp = v;
        else if (a == "--state") statep = v;
        else if (a == "--test") sel = v;
        else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
    }
    if (sel == "list") { for (auto& t : tests()) printf("%s %d\n", t.name, t.weight); return 0; }
    g_out = outp.empty() ? stdout : fopen(outp.c_str(), "a");
    if (!statep.empty()) {
        int fd = open(statep.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(State))) return 2;
        g_state = (State*)mmap(0, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (g_state == MAP_FAILED) return 2;
    }
    TestDef* td = nullptr;
    for (auto& t : tests()) if (sel == t.name) td = &t;
    if (!td) { fprintf(stderr, "no test %s\n", sel.c_str()); return 2; }
    if (g_state) { strncpy(g_state->test, td->name, 63); }
    uint64_t n = (cases * td->weight + 99) / 100;
    std::unordered_set<uint64_t> sigs;
    uint64_t ran = 0, skipped = 0, nontriv = 0; std::vector<std::string> samples;
    uint64_t lo = start, hi = n; int slow = getenv("MON_SLOW") ? atoi(getenv("MON_SLOW")) : 0;
    if (only >= 0) { lo = only; hi = only + 1; }
    for (uint64_t i = lo; i < hi; i++) {
        if (only < 0 && i % shards != shard) continue;
        Case c;
        c.test = td->name; c.idx = i;
        c.seed = case_seed(td->name, seed, i);
        c.r = Rng(c.seed); c.r.next();
        if (g_state) { g_state->idx = i; g_state->desc[0] = 0; }
        timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
        td->fn(c);
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if (slow > 0 && (t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000 >= slow) fprintf(stderr, "SLOW %s #%llu %ld ms: %s\n", td->name, (unsigned long long)i, (long)((t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000), c.desc.c_str());
        if (c.skipped) { skipped++; continue; }
        ran++;
        if (c.nontrivial) { nontriv++; sigs.insert(c.sig); }
        if (samples.size() < 2 && c.nontrivial) samples.push_back(c.desc);
        if (only >= 0) printf("case %s #%llu: %s\n", td->name, (unsigned long long)i, c.desc.c_str());
    }
    if (g_state) g_state->done = 1;
    fprintf(g_out, "{\"t\":\"sum\",\"test\":\"%s\",\"ran\":%llu,\"skipped\":%llu,\"nontrivial\":%llu,\"fails\":%llu,\"samples\":[",
            td->name, (unsigned long long)ran, (unsigned long long)skipped, (unsigned long long)nontriv, (unsigned long long)g_fails);
    for (size_t k = 0; k < samples.size(); k++) fprintf(g_out, "%s\"%s\"", k ? "," : "", jesc(samples[k]).c_str());
    fprintf(g_out, "],\"counts\":{");
    bool first = true;
    for (auto& kv : g_counts) { fprintf(g_out, "%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
    fprintf(g_out, "},\"sigs\":[");
    first = true;
    for (auto s : sigs) { fprintf(g_out, "%s%llu", first ? "" : ",", (unsigned long long)(s >> 12)); first = false; }
    fprintf(g_out, "]}\n");
    fclose(g_out);
    return g_fails && only >= 0 ? 1 : 0;
}
