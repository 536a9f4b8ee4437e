// Runner: batch of seeded simulated runs (one forked process per run), replay, minimisation.
#include "kernel.h"
#include "plan.h"
#include "race.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;

namespace sim {
static std::vector<Scenario> &scns() {
    static std::vector<Scenario> v;
    return v;
}
void register_scenario(const Scenario &s) { scns().push_back(s); }
void boot();
} // namespace sim

static Result *shm = nullptr;

// C04 and C15 hold for every run of every scenario: their scenarios are all the others, with the race detector on
// (C04) or with an inventory of the heap at the end (C15).  Violations which are not theirs do not count.
static bool meta(const std::string &prop) { return prop == "C04" || prop == "C15"; }
static bool counts(const Scenario &s, const std::string &prop, const std::string &cls) {
    auto is = [&](const char *p) { return cls.rfind(p, 0) == 0; };
    static bool all = getenv("SIM_ALL"); // debugging aid
    if (all || is("harness/"))
        return true;
    if (s.only) {
        std::istringstream in(s.only);
        for (std::string p; in >> p;)
            if (is(p.c_str()))
                return true;
        return false;
    }
    if (prop == "C04")
        return is("race/") || is("confine/");
    if (prop == "C15")
        return is("heap/") || is("leak/") || is("crash/SIG");
    return true;
}
static void expand_meta() {
    std::map<std::string, uint32_t> tot;
    auto base = scns();
    for (auto &s : base)
        tot[s.prop] += s.weight;
    for (auto &s : base) {
        if (!strcmp(s.prop, "KF"))
            continue;
        for (auto *m : {"C04", "C15"}) {
            Scenario c = s;
            if (!strcmp(s.prop, m))
                continue;
            if (meta(s.prop)) { // a scenario of its own of the other one
                c.prop = m;
                c.wants_race = !strcmp(m, "C04");
                scns().push_back(c);
                continue;
            }
            c.prop = m;
            c.name = strdup((std::string(s.prop) + "." + s.name).c_str());
            c.weight = std::max(1u, 60 * s.weight / tot[s.prop]);
            c.wants_race = !strcmp(m, "C04");
            scns().push_back(c);
        }
    }
}
// A property is also observed in the scenarios of other properties: there, only its own classes count.
struct Lent {
    const char *prop, *from, *name, *only;
};
static const Lent lent[] = {
    {"C01", "C17", "blocking-handlers", "msg/"},
    {"C01", "C05", "requests", "order/"},
    {"C01", "C02", "asio-forwarders", "msg/order"},
    {"C01", "C14", "routes", "route/twice route/corrupt"},
    {"C02", "C03", "subscriptions", "sub/lost"},
    {"C02", "C14", "routes", "route/lost"},
    {"C02", "C17", "blocking-handlers", "msg/lost"},
    {"C06", "C17", "blocking-handlers", "timer/"},
    {"C07", "C10", "spawners", "life/"},
    {"C07", "C11", "links", "life/"},
    {"C07", "C12", "registry", "life/"},
    {"C07", "C13", "resources", "life/"},
    {"C07", "C16", "stops", "life/"},
    {"C07", "C15", "mix", "life/"},
    {"C08", "C10", "spawners", "spawn/no-shutdown spawn/left life/child-hook"},
    {"C08", "C11", "links", "link/no-shutdown life/child-hook"},
    {"C08", "C12", "registry", "registry/no-shutdown life/child-hook"},
    {"C08", "C13", "resources", "resources/no-shutdown resources/stuck life/child-hook"},
    {"C08", "C15", "mix", "mix/no-shutdown life/child-hook"},
    {"C09", "C10", "spawners", "spawn/spurious-shutdown policy/"},
    {"C11", "C12", "registry", "registry/outlived"},
    {"C16", "C08", "trees", "life/no-shutdown"},
    {"C16", "C10", "spawners", "spawn/no-shutdown"},
    {"C16", "C15", "mix", "mix/no-shutdown"},
    {"C18", "C10", "spawners", "reason/"},
    {"C18", "C11", "links", "link/reason reason/"},
    {"C18", "C12", "registry", "reason/"},
    {"C18", "C15", "mix", "reason/"},
    {"C18", "C05", "requests", "req/wrong-error req/bogus-timeout"},
};
static void expand_lent(const std::vector<Scenario> &base) {
    std::map<std::string, uint32_t> own, other;
    for (auto &s : base)
        own[s.prop] += s.weight;
    for (auto &l : lent)
        other[l.prop]++;
    for (auto &s : scns()) // room for a share of 2 to 1
        if (other.count(s.prop) && !meta(s.prop))
            s.weight *= 2 * other[s.prop];
    for (auto &l : lent)
        for (auto &s : base)
            if (!strcmp(l.from, s.prop) && !strcmp(l.name, s.name)) {
                Scenario c = s;
                c.prop = l.prop;
                c.name = strdup((std::string(l.from) + "." + l.name).c_str());
                c.weight = own[l.prop];
                c.wants_race = false;
                c.only = l.only;
                scns().push_back(c);
            }
}
static std::vector<Scenario> scenarios_of(const std::string &prop) {
    std::vector<Scenario> r;
    static const char *one = getenv("SIM_SCN"); // debugging aid
    for (auto &s : scns())
        if (prop == s.prop && (!one || !strcmp(one, s.name)))
            r.push_back(s);
    std::sort(r.begin(), r.end(), [](auto &a, auto &b) { return strcmp(a.name, b.name) < 0; });
    return r;
}
static const Scenario *scenario_named(const std::string &prop, const std::string &name) {
    for (auto &s : scns())
        if (prop == s.prop && name == s.name)
            return &s;
    return nullptr;
}

static double wall() {
    timespec ts;
    syscall(SYS_clock_gettime, 1, &ts);
    return double(ts.tv_sec) + double(ts.tv_nsec) / 1e9;
}

static void gen_sched(Rng &r, SchedCfg &c) {
    c.seed = r.next();
    static const uint32_t gaps[] = {0, 3, 6, 12, 25, 50, 100, 200, 400, 1000};
    c.gap = gaps[r.below(10)];
    c.mode = r.one_in(4) ? 1 : 0;
    static const uint32_t ticks[] = {20, 50, 100, 300, 1000, 5000};
    c.tick_ns = ticks[r.below(6)];
    if (r.one_in(2)) {
        static const uint32_t ins[] = {5, 10, 40, 150};
        static const uint32_t uss[] = {100, 5000, 100000, 3000000};
        c.stall_1in = ins[r.below(4)];
        c.stall_max = 1 + r.below(12);
        c.stall_us = uss[r.below(4)];
    }
    if (r.one_in(4)) {
        c.jump_1in = 20 + r.below(100);
        c.jump_max = 1 + r.below(4);
        static const uint32_t uss[] = {1000, 100000, 10000000};
        c.jump_us = uss[r.below(3)];
    }
    c.heap = (r.one_in(4) ? 0 : 1) | (r.one_in(4) ? 2 : 0);
}

static const Scenario *generate(const std::string &prop, uint64_t seed, Plan &pl) {
    auto sc = scenarios_of(prop);
    Rng r(seed * 2654435761ull + 12345);
    uint32_t tot = 0;
    for (auto &s : sc)
        tot += s.weight;
    uint32_t x = r.below(tot);
    size_t i = 0;
    while (x >= sc[i].weight)
        x -= sc[i++].weight;
    pl.prop = prop;
    pl.seed = seed;
    gen_sched(r, pl.sched);
    pl.race = sc[i].wants_race;
    pl.uaf = true;
    pl.leak = prop == "C15";
    sc[i].gen(r, pl);
    return scenario_named(prop, sc[i].name);
}

// ------------------------------------------------------------------ running one plan
struct Outcome {
    bool violation = false;
    bool harness_error = false;
    std::string cls, msg, other;
    uint64_t hash = 0, obs = 0;
};

static Outcome run_plan_(const Scenario &s, const Plan &pl, bool trace) {
    memset(shm, 0, offsetof(Result, events));
    shm->n_events = 0;
    shm->trace_len = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        _exit(3);
    }
    if (pid == 0) {
        struct rlimit rl {
            size_t(1) << 33, size_t(1) << 33
        };
        (void)rl;
        Plan p = pl;
        if (p.uaf || p.race) {
#ifdef SIM_FULL
            race_enable(p.race, p.uaf);
#endif
        }
        inventory = p.leak;
        want_reasons = p.prop == "C18";
        release_delivery = Rng(p.seed ^ 0x5ca1ab1e).one_in(3);
        start(p.sched, shm, trace);
        uint64_t seq0 = heap_seq();
        s.run(p);
        if (p.leak && leaks_expected)
            probe("abandoned-actors");
        if (p.leak && !leaks_expected) {
            probe("heap-inventories");
            void *site = nullptr;
            uint32_t size = 0;
            uint64_t seq = 0;
            uint64_t n = heap_live(seq0, &site, &size, &seq);
            if (trace)
                heap_report_live(seq0, 1000);
            if (n)
                fail("leak/memory", "%llu blocks are still allocated after the shutdown; the first of them: %u bytes, alloc #%llu, "
                     "allocated from %p", (unsigned long long)n, size, (unsigned long long)(seq - seq0), site);
        }
        finish();
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    Outcome o;
    o.hash = shm->hash;
    o.obs = shm->obs_hash;
    if (shm->finished == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0)
        return o;
    if (shm->finished == 2) {
        o.cls = shm->cls;
        o.msg = shm->msg;
        o.violation = true;
        if (o.cls.rfind("harness/", 0) == 0)
            o.harness_error = true;
        return o;
    }
    o.violation = true;
    char b[64];
    if (WIFSIGNALED(st))
        snprintf(b, sizeof b, "crash/killed-by-signal-%d", WTERMSIG(st));
    else
        snprintf(b, sizeof b, "crash/exit-%d", WEXITSTATUS(st));
    o.cls = b;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
        o.harness_error = true; // out of memory killer or so: not a verdict
    return o;
}

static Outcome run_plan(const Scenario &s, const Plan &pl, bool trace = false) {
    auto o = run_plan_(s, pl, trace);
    if (o.violation && !counts(s, pl.prop, o.cls)) {
        o.violation = false;
        o.other = o.cls;
        o.cls.clear();
    }
    return o;
}

// ------------------------------------------------------------------ replay files
static std::string esc(const std::string &s) {
    std::string r;
    for (char c : s) {
        if (c == '\n')
            r += ' ';
        else
            r += c;
    }
    return r;
}

static void write_replay(const std::string &path, const Scenario &s, const Plan &pl, const Outcome &o) {
    std::ofstream f(path);
    f << "# simulated run: violation " << o.cls << "\n# " << esc(o.msg) << "\n";
    f << "property " << pl.prop << "\nscenario " << s.name << "\nseed " << pl.seed << "\n";
    f << "class " << o.cls << "\nhash " << o.hash << "\n";
    f << "race " << int(pl.race) << "\nuaf " << int(pl.uaf) << "\nleak " << int(pl.leak) << "\n";
    for (int i = 0; i < NPARAM; ++i)
        if (pl.p[i])
            f << "param " << i << " " << pl.p[i] << "   # "
              << (s.param_names && s.param_names[i] ? s.param_names[i] : "") << "\n";
    for (auto &op : pl.ops)
        f << "op " << op.k << " " << op.a << " " << op.b << " " << op.c << " " << op.d << "   # "
          << (s.op_names ? s.op_names[op.k] : "") << "\n";
    auto &c = pl.sched;
    f << "sched " << c.seed << " " << c.gap << " " << c.mode << " " << c.tick_ns << " " << c.stall_1in << " "
      << c.stall_max << " " << c.stall_us << " " << c.jump_1in << " " << c.jump_max << " " << c.jump_us << " " << c.heap
      << " " << c.explicit_ << " " << c.max_steps << "\n";
    for (auto &e : c.events)
        f << "ev " << e.idx << " " << int(e.kind) << " " << int(e.fiber) << " " << e.arg << "   # "
          << (e.kind == EV_SWITCH ? "switch to thread" : e.kind == EV_STALL ? "stall thread for us" : "clock jump us")
          << "\n";
    f << "end\n";
}

static const Scenario *read_replay(const std::string &path, Plan &pl, std::string &cls, uint64_t &hash) {
    std::ifstream f(path);
    std::string line, name;
    bool end = false;
    while (std::getline(f, line)) {
        auto h = line.find('#');
        if (h != std::string::npos)
            line = line.substr(0, h);
        std::istringstream is(line);
        std::string k;
        if (!(is >> k))
            continue;
        if (k == "property")
            is >> pl.prop;
        else if (k == "scenario")
            is >> name;
        else if (k == "seed")
            is >> pl.seed;
        else if (k == "class")
            is >> cls;
        else if (k == "hash")
            is >> hash;
        else if (k == "race") {
            int v;
            is >> v;
            pl.race = v;
        } else if (k == "uaf") {
            int v;
            is >> v;
            pl.uaf = v;
        } else if (k == "leak") {
            int v;
            is >> v;
            pl.leak = v;
        } else if (k == "param") {
            int i, v;
            is >> i >> v;
            pl.p[i] = v;
        } else if (k == "op") {
            Op o;
            is >> o.k >> o.a >> o.b >> o.c >> o.d;
            pl.ops.push_back(o);
        } else if (k == "sched") {
            auto &c = pl.sched;
            is >> c.seed >> c.gap >> c.mode >> c.tick_ns >> c.stall_1in >> c.stall_max >> c.stall_us >> c.jump_1in >>
                c.jump_max >> c.jump_us >> c.heap >> c.explicit_ >> c.max_steps;
        } else if (k == "ev") {
            int a, b;
            SEv e{};
            is >> e.idx >> a >> b >> e.arg;
            e.kind = uint8_t(a);
            e.fiber = uint8_t(b);
            pl.sched.events.push_back(e);
        } else if (k == "end")
            end = true;
    }
    if (!end)
        return nullptr;
    return scenario_named(pl.prop, name);
}

// ------------------------------------------------------------------ minimiser
static Plan with_recorded_schedule(const Plan &pl) { // shm holds the last run's events
    Plan q = pl;
    if (shm->events_overflow)
        return q;
    q.sched.explicit_ = 1;
    q.sched.events.assign(shm->events, shm->events + shm->n_events);
    return q;
}

static Plan minimise(const Scenario &s, Plan cur, const std::string &cls, double budget) {
    double t0 = wall();
    auto left = [&] { return wall() - t0 < budget; };
    auto fails = [&](const Plan &p) { return run_plan(s, p).cls == cls; };
    // try a candidate plan with the present schedule, then with a few others
    auto fails_any = [&](Plan &p) {
        if (fails(p))
            return true;
        if (p.sched.explicit_)
            return false;
        for (int i = 0; i < 3 && left(); ++i) {
            Plan q = p;
            q.sched.seed = p.sched.seed * 31 + uint64_t(i) + 7;
            if (fails(q)) {
                p = q;
                return true;
            }
        }
        return false;
    };
    // simpler schedule regimes first
    {
        Plan q = cur;
        q.sched.gap = 0;
        q.sched.stall_1in = q.sched.jump_1in = 0;
        q.sched.mode = 0;
        q.sched.heap = 0;
        if (fails(q))
            cur = q;
        else {
            for (int i = 0; i < 3; ++i) {
                q = cur;
                if (i == 0)
                    q.sched.jump_1in = 0;
                if (i == 1)
                    q.sched.stall_1in = 0;
                if (i == 2)
                    q.sched.heap = 0;
                if (fails(q))
                    cur = q;
            }
        }
    }
    // operations: ddmin
    bool progress = true;
    while (progress && left()) {
        progress = false;
        for (size_t chunk = std::max<size_t>(cur.ops.size() / 2, 1); chunk >= 1 && left(); chunk /= 2) {
            for (size_t i = 0; i < cur.ops.size() && left();) {
                Plan q = cur;
                size_t n = std::min(chunk, cur.ops.size() - i);
                q.ops.erase(q.ops.begin() + long(i), q.ops.begin() + long(i + n));
                if (fails_any(q)) {
                    cur = q;
                    progress = true;
                } else
                    i += chunk;
            }
            if (chunk == 1)
                break;
        }
        // parameters towards 0
        for (int i = 0; i < NPARAM && left(); ++i) {
            for (int v : {0, 1, cur.p[i] / 2}) {
                if (std::abs(v) >= std::abs(cur.p[i]))
                    continue;
                Plan q = cur;
                q.p[i] = v;
                if (fails_any(q)) {
                    cur = q;
                    progress = true;
                    break;
                }
            }
        }
        for (size_t i = 0; i < cur.ops.size() && left(); ++i)
            for (int j = 0; j < 4; ++j) {
                int Op::*m = j == 0 ? &Op::a : j == 1 ? &Op::b : j == 2 ? &Op::c : &Op::d;
                for (int v : {0, cur.ops[i].*m / 2}) {
                    if (v >= cur.ops[i].*m)
                        continue;
                    Plan q = cur;
                    q.ops[i].*m = v;
                    if (fails(q)) {
                        cur = q;
                        progress = true;
                        break;
                    }
                }
            }
    }
    // schedule: explicit events, ddmin
    if (run_plan(s, cur).cls == cls) {
        Plan q = with_recorded_schedule(cur);
        if (fails(q)) {
            cur = q;
            for (size_t chunk = std::max<size_t>(cur.sched.events.size() / 2, 1); left(); chunk /= 2) {
                for (size_t i = 0; i < cur.sched.events.size() && left();) {
                    Plan r = cur;
                    size_t n = std::min(chunk, r.sched.events.size() - i);
                    r.sched.events.erase(r.sched.events.begin() + long(i), r.sched.events.begin() + long(i + n));
                    if (fails(r))
                        cur = r;
                    else
                        i += chunk;
                }
                if (chunk <= 1)
                    break;
            }
        }
    }
    return cur;
}

// ------------------------------------------------------------------ main
int main(int argc, char **argv) {
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    std::string mode = argc > 1 ? argv[1] : "";
    boot();
    auto base = scns();
    expand_meta();
    expand_lent(base);
    shm = static_cast<Result *>(
        mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (mode == "list") {
        for (auto &s : scns())
            printf("%s %s\n", s.prop, s.name);
        return 0;
    }
    if (mode == "replay") { // replay <file> [trace]
        Plan pl;
        std::string cls;
        uint64_t hash = 0;
        auto *s = read_replay(argv[2], pl, cls, hash);
        if (!s) {
            fprintf(stderr, "bad replay file\n");
            return 3;
        }
        auto o = run_plan(*s, pl, argc > 3);
        if (argc > 3)
            fwrite(shm->trace, 1, shm->trace_len, stdout);
        printf("REPLAY class=%s hash=%llu expected_class=%s expected_hash=%llu msg=%s\n",
               o.cls.empty() ? "-" : o.cls.c_str(), (unsigned long long)o.hash, cls.c_str(), (unsigned long long)hash,
               esc(o.msg).c_str());
        return o.cls == cls && o.hash == hash ? 1 : o.violation ? 4 : 0;
    }
    if (mode == "one") { // one <prop> <seed> [trace]
        Plan pl;
        uint64_t seed = strtoull(argv[3], nullptr, 10);
        auto *s = generate(argv[2], seed, pl);
        auto o = run_plan(*s, pl, argc > 4);
        if (argc > 4) {
            for (int i = 0; i < NPARAM; ++i)
                if (pl.p[i])
                    printf("param %d %d %s\n", i, pl.p[i], s->param_names && s->param_names[i] ? s->param_names[i] : "");
            for (auto &op : pl.ops)
                printf("op %d %d %d %d %d  %s\n", op.k, op.a, op.b, op.c, op.d, s->op_names ? s->op_names[op.k] : "");
            fwrite(shm->trace, 1, shm->trace_len, stdout);
        }
        printf("%s seed=%llu class=%s hash=%llu steps=%llu switches=%llu simtime=%.3f msg=%s\n", s->name,
               (unsigned long long)seed, o.cls.empty() ? "-" : o.cls.c_str(), (unsigned long long)o.hash,
               (unsigned long long)shm->steps, (unsigned long long)shm->switches, double(shm->sim_ns) / 1e9,
               o.msg.c_str());
        return o.violation;
    }
    if (mode == "kf") { // kf <scenario> <seed> <replay>: the scenario of one listed finding
        Plan pl;
        uint64_t seed = strtoull(argv[3], nullptr, 10);
        auto *s = scenario_named("KF", argv[2]);
        if (!s)
            return 3;
        pl = Plan();
        pl.prop = "KF";
        pl.seed = seed;
        Rng g(seed);
        s->gen(g, pl);
        pl.sched.seed = seed;
        pl.uaf = true;
        auto o = run_plan(*s, pl);
        if (o.violation)
            write_replay(argv[4], *s, pl, o);
        printf("kf %s class=%s msg=%s\n", s->name, o.cls.empty() ? "-" : o.cls.c_str(), o.msg.c_str());
        return 0;
    }
    if (mode == "hashes") { // hashes <prop> <from> <n>: one line per seed (determinism self-test)
        uint64_t from = strtoull(argv[3], nullptr, 10), n = strtoull(argv[4], nullptr, 10);
        for (uint64_t i = from; i < from + n; ++i) {
            Plan pl;
            auto *s = generate(argv[2], i, pl);
            auto o = run_plan(*s, pl);
            printf("%llu %s %s %llu %llu %llu\n", (unsigned long long)i, s->name, o.cls.c_str(),
                   (unsigned long long)o.hash, (unsigned long long)shm->steps, (unsigned long long)o.obs);
        }
        return 0;
    }
    if (mode == "batch") {
        // batch <prop> <seed_base> <worker> <workers> <seconds> <max_runs> <replay_out> <min_budget> <stop_file>
        std::string prop = argv[2];
        uint64_t base = strtoull(argv[3], nullptr, 10);
        uint64_t worker = strtoull(argv[4], nullptr, 10), workers = strtoull(argv[5], nullptr, 10);
        double secs = atof(argv[6]);
        uint64_t max_runs = strtoull(argv[7], nullptr, 10);
        std::string out = argv[8];
        double mb = atof(argv[9]);
        std::string stopf = argv[10];
        uint64_t min_runs = argc > 11 ? strtoull(argv[11], nullptr, 10) : 0; // even when the machine is slow
        double t0 = wall();
        uint64_t runs = 0, nontrivial = 0, simns = 0, steps = 0, switches = 0, stalls = 0, jumps = 0, verif = 0,
                 mism = 0;
        std::unordered_set<uint64_t> hashes, obs;
        std::map<std::string, uint64_t> probes, per_scn;
        std::vector<std::string> samples;
        std::string status = "ok", vcls, vmsg, nd;
        for (uint64_t i = worker; runs < max_runs && (wall() - t0 < secs || (runs < min_runs && wall() - t0 < 6 * secs)); i += workers) {
            if ((runs & 15) == 0 && access(stopf.c_str(), F_OK) == 0)
                break;
            Plan pl;
            uint64_t seed = base * 1000003ull + i;
            auto *s = generate(prop, seed, pl);
            auto o = run_plan(*s, pl);
            ++runs;
            per_scn[s->name]++;
            if (!o.other.empty())
                probes["ended-by-another-property"]++;
            simns += shm->sim_ns;
            steps += shm->steps;
            switches += shm->switches;
            stalls += shm->stalls;
            jumps += shm->jumps;
            bool nt = shm->switches > 0 && shm->steps > 50;
            if (hashes.insert(o.hash).second && nt)
                ++nontrivial;
            obs.insert(o.obs);
            for (uint32_t q = 0; q < shm->n_probes; ++q)
                probes[shm->probes[q].name] += shm->probes[q].n;
            if (samples.size() < 3 && nt) {
                std::ostringstream os;
                os << "scenario " << s->name << " seed " << seed << " ops " << pl.ops.size() << " steps " << shm->steps
                   << " switches " << shm->switches << " stalls " << shm->stalls << " jumps " << shm->jumps
                   << " simulated_s " << double(shm->sim_ns) / 1e9 << " hash " << o.hash;
                samples.push_back(os.str());
            }
            if (o.harness_error) {
                status = "harness";
                vcls = o.cls;
                vmsg = o.msg + " seed " + std::to_string(seed);
                break;
            }
            if (!o.violation && (runs % 64) == 7) { // determinism self-check on the way
                auto h1 = o.hash;
                auto o2 = run_plan(*s, pl);
                ++verif;
                if (o2.hash != h1 || o2.cls != o.cls) {
                    if (!mism++)
                        nd = "seed " + std::to_string(seed);
                }
            }
            if (o.violation) {
                // gate: the same seed twice
                auto o2 = run_plan(*s, pl);
                if (o2.hash != o.hash || o2.cls != o.cls) {
                    if (!mism++)
                        nd = "violation " + o.cls + " / " + o2.cls + " seed " + std::to_string(seed);
                    continue;
                }
                { // tell the other workers
                    std::ofstream(stopf) << "x";
                }
                Plan m = minimise(*s, pl, o.cls, mb);
                auto om = run_plan(*s, m);
                if (om.cls != o.cls) { // should not happen: fall back to the original
                    m = pl;
                    om = run_plan(*s, m);
                }
                write_replay(out, *s, m, om);
                status = "violation";
                vcls = om.cls;
                vmsg = om.msg;
                break;
            }
        }
        if (mism && status == "ok") {
            status = "nondeterministic";
            vmsg = nd;
        }
        printf("{\"status\":\"%s\",\"class\":\"%s\",\"msg\":\"", status.c_str(), vcls.c_str());
        for (char c : vmsg)
            if (c == '"' || c == '\\')
                printf("\\%c", c);
            else if (c >= 32)
                putchar(c);
        printf("\",\"runs\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"distinct_obs\":%zu,\"sim_s\":%.3f,\"steps\":%llu,"
               "\"switches\":%llu,\"stalls\":%llu,\"jumps\":%llu,\"determinism_checks\":%llu,\"wall\":%.3f,\"probes\":{",
               (unsigned long long)runs, (unsigned long long)nontrivial, hashes.size(), obs.size(), double(simns) / 1e9,
               (unsigned long long)steps, (unsigned long long)switches, (unsigned long long)stalls,
               (unsigned long long)jumps, (unsigned long long)verif, wall() - t0);
        bool first = true;
        for (auto &p : probes) {
            printf("%s\"%s\":%llu", first ? "" : ",", p.first.c_str(), (unsigned long long)p.second);
            first = false;
        }
        printf("},\"scenarios\":{");
        first = true;
        for (auto &p : per_scn) {
            printf("%s\"%s\":%llu", first ? "" : ",", p.first.c_str(), (unsigned long long)p.second);
            first = false;
        }
        printf("},\"samples\":[");
        first = true;
        for (auto &p : samples) {
            printf("%s\"%s\"", first ? "" : ",", p.c_str());
            first = false;
        }
        printf("]}\n");
        return 0;
    }
    fprintf(stderr, "usage: simrun list|one|replay|hashes|batch ...\n");
    return 3;
}
