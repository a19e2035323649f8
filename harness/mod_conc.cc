// Concurrency monitor: the other modules' workloads issued from several threads at once, under TSan.
#include "conc_pre.h"
using namespace mon;
using namespace t2;

// not run concurrently: process-wide channel pool, forks, configurations with a known serial finding
static bool excluded(const std::string& n) {
    for (const char* x : {"mov_async", "lut_tables", "avepool_large", "tconv30_tiled", "fc30_wzp", "conc_mix", "conc_share"}) if (n == x) return true;
    return n.size() > 6 && n.substr(n.size() - 6) == "_reloc";
}
static std::vector<TestDef> pool() { std::vector<TestDef> v; for (auto& t : tests()) if (!excluded(t.name)) v.push_back(t); return v; }

struct Job { TestDef t; uint64_t seed; bool nontrivial = false; uint64_t sig = 0; bool skipped = false; std::string desc; Case::Local loc; };
static void exec(Job& j) {
    Case s; s.test = j.t.name; s.seed = j.seed; s.r = Rng(j.seed); s.r.next(); s.local = &j.loc;
    j.t.fn(s);
    j.nontrivial = s.nontrivial; j.sig = s.sig; j.skipped = s.skipped; j.desc = s.desc;
}
// a report that the same case also gives alone is not an effect of concurrency
static void report(Case& c, Job& j) {
    if (j.loc.fails.empty()) return;
    Job again{j.t, j.seed}; int keep = g_share; g_share = 0; exec(again); g_share = keep;
    for (auto& f : j.loc.fails) {
        bool serial = false;
        for (auto& g : again.loc.fails) if (g.key == f.key) serial = true;
        if (serial) { c.count("failing_serially_too"); continue; }
        c.d("%s", f.desc.c_str());
        c.fail(f.kind.c_str(), std::string(j.t.name) + ":" + f.key, "only when run concurrently: %s", f.msg.c_str());
    }
}

// different calls on separate tensors from several threads
MON_TEST(conc_mix) {
    auto p = pool(); Rng& r = c.r; int n = (int)r.in(2, 4), m = (int)r.in(2, 6); bool same = r.chance(50); TestDef one = r.pick(p), two = r.pick(p);
    std::vector<std::vector<Job>> jobs(n);
    for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) jobs[i].push_back(Job{same ? (r.chance(75) ? one : two) : r.pick(p), r.next()});
    c.d("%d threads x %d calls%s:", n, m, same ? " of few kinds" : "");
    for (auto& v : jobs) { for (auto& j : v) c.d(" %s", j.t.name); c.d(" |"); }
    std::vector<std::vector<Span>> sp(n); std::atomic<int> ready{0}; std::vector<std::thread> th;
    for (int i = 0; i < n; i++) th.emplace_back([&, i] {
        g_spans = &sp[i]; ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < n) {}
        for (auto& j : jobs[i]) exec(j);
        g_spans = nullptr; });
    for (auto& t : th) t.join();
    Overlap o; overlaps(sp, o);
    c.count("concurrent_calls", o.calls); c.count("overlapping_pairs", o.pairs);
    for (auto& k : o.kinds) c.h(std::hash<std::string>()(k));
    c.nontrivial = o.pairs > 0; if (o.pairs) c.count("schedules_with_overlap");
    for (auto& v : jobs) for (auto& j : v) { c.h(j.sig); c.count("cases"); if (!j.skipped) report(c, j); }
}
// one call from several threads: everything but the outputs shared; 3.0: two instances of one blob
MON_TEST(conc_share) {
    auto p = pool(); Rng& r = c.r; Job j{r.pick(p), r.next()};
    c.d("%s:", j.t.name);
    g_share = (int)r.in(2, 4); std::string n = j.t.name;
    { t3::Reloc rl; exec(j); }
    g_share = 0;
    c.skipped = j.skipped; c.d(" %s", j.desc.c_str()); c.h(j.sig);
    for (auto& k : j.loc.counts) { const std::string& s = k.first; if (s == "shared_calls" || s == "overlapping_pairs" || s == "conc_outputs_checked" || s.rfind("fn_overlapped", 0) == 0) c.count(s, k.second); if (s == "overlapping_pairs" && k.second) c.nontrivial = j.nontrivial; }
    if (!j.skipped) report(c, j);
}
