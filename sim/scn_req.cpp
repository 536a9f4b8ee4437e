// C05: every request gets exactly one outcome.
#include "mesh.h"
#include <system_error>
using namespace rs;

namespace payload_ {
struct ResV {
    int nonce = -1, serial = -1;
    std::string text;
    ResV() = default;
    ResV(int n, int s) : nonce(n), serial(s), text("response " + std::to_string(n) + " with some more bytes") {}
};
struct ReqV {
    using response_t = ResV;
    int nonce, mode, delay_us;
};
struct ResA : rotor::arc_base_t<ResA> {
    int nonce, serial;
    std::vector<int> data;
    ResA(int n, int s) : nonce(n), serial(s), data(5, n) {}
    virtual ~ResA() = default;
};
struct ReqA : rotor::arc_base_t<ReqA> {
    using response_t = rotor::intrusive_ptr_t<ResA>;
    int nonce, mode, delay_us;
    ReqA(int n, int m, int d) : nonce(n), mode(m), delay_us(d) {}
    virtual ~ReqA() = default;
};
} // namespace payload_

namespace {
using namespace payload_;
using rqv_t = r::request_traits_t<ReqV>::request::message_t;
using rsv_t = r::request_traits_t<ReqV>::response::message_t;
using rqa_t = r::request_traits_t<ReqA>::request::message_t;
using rsa_t = r::request_traits_t<ReqA>::response::message_t;

enum Mode { M_REPLY, M_ERROR, M_LATE, M_TWICE, M_NEVER, M_REPLY_ERROR, M_LATE_ERROR, M_ERROR_REPLY, M_N };

struct RQ {
    int ent, src, dst, mode, delay;
    bool arc, via;
    r::request_id_t id = 0;
    uint64_t base = 0, started = 0, timeout = 0;
    bool is_long = false;
    int received = 0, replied = 0;
    bool note_sent = false, note_seen = false; // ahead of the reply
    bool overtaken = false;                    // by a message sent after the reply
    int outcome = 0; // 1 reply 2 error 3 timeout
    BK bk;
};
struct Note { // travels along with a reply
    int nonce;
    bool after;
};
struct Cmd {
    int op, dst, mode, timeout, n;
};
struct St {
    Mesh m;
    kvec<RQ> rq;
    uint64_t faults_end = 0;
    int pending = 0;
    kset<int> stopping;
};
St *S;
enum { O_REQ = 1, O_BURST, O_STOP, O_SLEEP, O_SLOW };
const char *op_names[] = {"", "request(actor,dst,mode+delay,timeout_us)", "burst(actor,dst,mode+delay,timeout_us)", "shut-down-actor(actor)",
                          "sleep(us)", "slow-handler(actor,us)"};
const char *pnames[sim::NPARAM] = {MESH_PNAMES, "no stalls and jumps"};
const int delays[] = {1, 500, 1000, 20000, 20001, 300000, 1000000, 2500000};

std::error_code err_of(int nonce) { return std::make_error_code(std::errc(1 + nonce % 30)); }

struct act_t : sact_t {
    using sact_t::sact_t;
    BK bk = B_SIM;
    r::address_ptr_t second;
    struct Late {
        r::request_id_t t;
        r::message_ptr_t m;
        bool arc;
    };
    std::vector<Late> late;
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &) { second = create_address(); });
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &p) {
            p.subscribe_actor(&act_t::on_cmd);
            p.subscribe_actor(&act_t::on_note);
            p.subscribe_actor(&act_t::on_rqv);
            p.subscribe_actor(&act_t::on_rqa);
            p.subscribe_actor(&act_t::on_rsv);
            p.subscribe_actor(&act_t::on_rsa);
            p.subscribe_actor(&act_t::on_rsv2, second);
            p.subscribe_actor(&act_t::on_rsa2, second);
        });
    }
    void make_request(int dst, int mode, int delay, int timeout) {
        int nonce;
        RQ q{};
        {
            sim::NoPreempt np;
            nonce = int(S->rq.size());
            q.ent = ent, q.src = tag, q.dst = dst, q.mode = mode, q.delay = delay;
            q.arc = nonce % 3 == 1;
            q.via = nonce % 5 == 2;
            q.started = sim::now();
            q.base = timer_base(bk);
            q.timeout = uint64_t(timeout) * sim::US;
            q.is_long = timeout >= LONG_MS;
            if (q.is_long)
                q.timeout = uint64_t(LONG_MS) * sim::MS;
            q.bk = bk;
            S->rq.push_back(q);
            sim::obs("request", tag, nonce, timeout);
        }
        auto to = q.is_long ? ms(LONG_MS) : us(timeout);
        auto &addr = S->m.slots[size_t(dst)].addr;
        r::request_id_t id;
        if (q.arc)
            id = q.via ? request_via<ReqA>(addr, second, nonce, mode, delay).send(to)
                       : request<ReqA>(addr, nonce, mode, delay).send(to);
        else
            id = q.via ? request_via<ReqV>(addr, second, nonce, mode, delay).send(to)
                       : request<ReqV>(addr, nonce, mode, delay).send(to);
        S->rq[size_t(nonce)].id = id;
    }
    void on_cmd(r::message_t<Cmd> &m) noexcept {
        Scope s(ent);
        auto c = m.payload;
        if (c.op == O_STOP)
            do_shutdown();
        else if (c.op == O_SLOW)
            sim::sleep_ns(uint64_t(c.n) * sim::US);
        else
            for (int i = 0; i < c.n; ++i)
                make_request(c.op == O_BURST ? (c.dst + i) % S->m.n() : c.dst,
                             c.op == O_BURST ? (c.mode + i * 3) % M_N : c.mode % M_N,
                             delays[(c.mode / M_N + i) % 8], c.timeout);
        S->pending--;
    }
    // ---- responder
    template <class M, class P> void handle(M &m, P &p, bool arc) {
        Scope s(ent);
        int mode = p.mode, nonce = p.nonce;
        {
            sim::NoPreempt np;
            sim::obs("request-in", tag, nonce);
            auto &q = S->rq.at(size_t(nonce));
            if (q.dst != tag || q.mode != mode || q.arc != arc)
                FAIL("req/misdirected", "actor %d received request %d of actor %d to actor %d", tag, nonce, q.src, q.dst);
            if (++q.received > 1)
                FAIL("req/duplicate", "request %d was handled twice", nonce);
        }
        switch (mode) {
        case M_REPLY:
            good(m, nonce, 0);
            break;
        case M_ERROR:
            bad(m, nonce);
            break;
        case M_TWICE:
            good(m, nonce, 0);
            good(m, nonce, 1);
            break;
        case M_REPLY_ERROR:
            good(m, nonce, 0);
            bad(m, nonce);
            break;
        case M_ERROR_REPLY:
            bad(m, nonce);
            good(m, nonce, 1);
            break;
        case M_LATE:
        case M_LATE_ERROR: {
            auto t = start_timer(us(p.delay_us), *this, &act_t::on_late);
            late.push_back({t, r::message_ptr_t(&m), arc});
            break;
        }
        default:
            break;
        }
    }
    template <class M> void good(M &m, int nonce, int serial) {
        S->rq[size_t(nonce)].replied++;
        auto &requester = S->m.slots[size_t(S->rq[size_t(nonce)].src)].addr;
        if (!serial && nonce % 2) {
            S->rq[size_t(nonce)].note_sent = true;
            send<Note>(requester, nonce, false);
        }
        reply_to(m, nonce, serial);
        if (!serial && nonce % 3)
            send<Note>(requester, nonce, true);
    }
    template <class M> void bad(M &m, int nonce) {
        S->rq[size_t(nonce)].replied++;
        reply_with_error(m, make_error(err_of(nonce)));
    }
    void on_late(r::request_id_t id, bool cancelled) noexcept {
        Scope s(ent);
        for (size_t i = 0; i < late.size(); ++i)
            if (late[i].t == id) {
                auto l = late[i];
                late.erase(late.begin() + long(i));
                if (cancelled)
                    return;
                if (l.arc) {
                    auto &m = static_cast<rqa_t &>(*l.m);
                    auto &p = *m.payload.request_payload;
                    p.mode == M_LATE ? good(m, p.nonce, 0) : bad(m, p.nonce);
                } else {
                    auto &m = static_cast<rqv_t &>(*l.m);
                    auto &p = m.payload.request_payload;
                    p.mode == M_LATE ? good(m, p.nonce, 0) : bad(m, p.nonce);
                }
                return;
            }
    }
    void on_rqv(rqv_t &m) noexcept { handle(m, m.payload.request_payload, false); }
    void on_rqa(rqa_t &m) noexcept { handle(m, *m.payload.request_payload, true); }
    // ---- requester
    void on_note(r::message_t<Note> &m) noexcept {
        Scope s(ent);
        sim::NoPreempt np;
        auto &q = S->rq.at(size_t(m.payload.nonce));
        sim::obs("note", tag, m.payload.nonce, m.payload.after);
        if (!m.payload.after)
            q.note_seen = true;
        else if (!q.outcome)
            q.overtaken = true; // or it is too late, then the timeout is on its way
    }
    template <class M> void outcome(M &m, int nonce, int rnonce, int serial, bool has_res, bool arc, bool via) {
        Scope s(ent);
        sim::NoPreempt np;
        auto &ee = m.payload.ee;
        if (nonce < 0 || nonce >= int(S->rq.size()))
            FAIL("req/unknown", "actor %d received a response to a request never made", tag);
        auto &q = S->rq[size_t(nonce)];
        auto &e = W->ents[size_t(ent)];
        sim::obs("response", tag, nonce, ee ? ee->ec.value() : 0);
        if (q.ent != ent || q.arc != arc || q.via != via)
            FAIL("req/wrong-requester", "the response to request %d of actor %d was delivered to actor %d%s", nonce, q.src,
                 tag, via != q.via ? " at another address than asked for" : "");
        if (q.id != m.payload.request_id())
            FAIL("req/wrong-id", "the response to request %d carries another request id", nonce);
        if (q.outcome)
            FAIL("req/twice", "request %d of actor %d to %d (mode %d) had two outcomes (first %s, then %s)", nonce, q.src,
                 q.dst, q.mode, q.outcome == 1 ? "reply" : q.outcome == 2 ? "error" : "timeout",
                 !ee ? "reply" : ee->ec.message().c_str());
        if (is_down(e))
            FAIL("req/after-shutdown", "actor %d handles the response to request %d after its shutdown", tag, nonce);
        if (!ee) {
            q.outcome = 1;
            sim::probe("outcome-reply");
            if (!has_res || rnonce != nonce)
                FAIL("req/mixed-up", "request %d was answered with the reply to request %d", nonce, rnonce);
            bool can = q.mode == M_REPLY || q.mode == M_LATE || q.mode == M_TWICE || q.mode == M_REPLY_ERROR;
            if (q.overtaken)
                FAIL("order/reply", "actor %d (%s) handles the reply of actor %d to request %d after a message which was sent later",
                     tag, bk_name[bk], q.dst, nonce);
            if (q.note_sent && !q.note_seen && is_up(e))
                FAIL("order/reply", "actor %d (%s) handles the reply of actor %d to request %d ahead of a message which was sent "
                                    "right before it",
                     tag, bk_name[bk], q.dst, nonce);
            if (!can || !q.replied || serial != 0)
                FAIL("req/phantom", "request %d (mode %d) got a reply (number %d) which was not the first answer to it",
                     nonce, q.mode, serial);
        } else if (ee->ec == r::make_error_code(r::error_code_t::request_timeout)) {
            q.outcome = 3;
            sim::probe("outcome-timeout");
            if (q.is_long)
                FAIL("req/bogus-timeout", "request %d timed out long before its time", nonce);
            if (sim::now() + timer_slack(q.bk) < q.base + q.timeout)
                FAIL("req/early-timeout", "request %d (%s) with timeout %.6f s timed out after %.6f s", nonce,
                     bk_name[q.bk], double(q.timeout) / 1e9, double(sim::now() - q.base) / 1e9);
            uint64_t due = std::max(q.started + q.timeout, S->faults_end);
            if (S->faults_end && sim::now() > due + 10 * sim::SEC)
                FAIL("req/late-timeout", "request %d (%s) timed out %.6f s late", nonce, bk_name[q.bk],
                     double(sim::now() - due) / 1e9);
        } else {
            q.outcome = 2;
            sim::probe("outcome-error");
            if (ee->ec != err_of(nonce))
                FAIL("req/wrong-error", "request %d got error %s", nonce, ee->message().c_str());
            bool can = q.mode == M_ERROR || q.mode == M_LATE_ERROR || q.mode == M_ERROR_REPLY;
            if (!can || !q.replied)
                FAIL("req/phantom", "request %d (mode %d) got an error which was not the first answer to it", nonce, q.mode);
        }
    }
    template <class M> void rsv(M &m, bool via) {
        bool ok = !m.payload.ee;
        outcome(m, m.payload.req->payload.request_payload.nonce, m.payload.res.nonce, m.payload.res.serial, ok, false, via);
    }
    template <class M> void rsa(M &m, bool via) {
        bool ok = !m.payload.ee && m.payload.res;
        outcome(m, m.payload.req->payload.request_payload->nonce, ok ? m.payload.res->nonce : -1,
                ok ? m.payload.res->serial : -1, ok, true, via);
    }
    void on_rsv(rsv_t &m) noexcept { dispatch_v(m); }
    void on_rsa(rsa_t &m) noexcept { dispatch_a(m); }
    void on_rsv2(rsv_t &m) noexcept { dispatch_v(m); }
    void on_rsa2(rsa_t &m) noexcept { dispatch_a(m); }
    void dispatch_v(rsv_t &m) { rsv(m, m.address.get() == second.get()); }
    void dispatch_a(rsa_t &m) { rsa(m, m.address.get() == second.get()); }
};

void gen(Rng &g, Plan &pl) {
    gen_mesh(g, pl, 0x3f, 3, 1, 2);
    pl.p[P_USER] = g.one_in(3);
    int ops = g.range(2, 20);
    auto to = [&] { return g.pick({0, 1, 500, 1000, 20000, 20000, 300000, 1000000, int(LONG_MS), int(LONG_MS), int(LONG_MS)}); };
    for (int i = 0; i < ops; ++i) {
        int a = g.range(0, 99);
        Op o;
        switch (g.below(9)) {
        case 0: case 1: case 2: case 3:
            o = Op{O_REQ, a, g.range(0, 99), g.range(0, 8 * M_N - 1), to()};
            break;
        case 4:
            o = Op{O_BURST, a, g.range(0, 99), g.range(0, 8 * M_N - 1), to()};
            break;
        case 5:
            o = Op{O_SLOW, a, g.pick({10, 1000, 20000, 500000}), 0, 0};
            break;
        case 6:
            if (g.one_in(2)) {
                o = Op{O_STOP, a, 0, 0, 0};
                break;
            }
            [[fallthrough]];
        default:
            o = Op{O_SLEEP, g.pick({1, 50, 900, 19000, 20500, 300000, 1500000}), 0, 0, 0};
        }
        pl.ops.push_back(o);
    }
}

void run(Plan &pl) {
    world_init();
    S = new (malloc(sizeof(St))) St();
    if (pl.p[P_USER]) {
        sim::faults_off();
        S->faults_end = 1;
    }
    auto &m = S->m;
    m.factory = [&](r::supervisor_t &sup, int tag) -> r::intrusive_ptr_t<r::actor_base_t> {
        auto a = sup.create_actor<act_t>().tag(tag).timeout(ms(LONG_MS)).finish();
        a->bk = m.nodes.back()->bk;
        return a;
    };
    m.build(pl);
    m.start();
    if (!m.wait_started())
        FAIL("start/stuck", "not everything started");
    for (auto &o : pl.ops) {
        sim::yield();
        if (o.k == O_SLEEP) {
            sim::sleep_ns(uint64_t(o.a) * sim::US);
            continue;
        }
        int a = o.a % m.n();
        S->pending++;
        if (o.k == O_STOP)
            S->stopping.insert(a);
        Cmd c{o.k, o.b % m.n(), o.c, o.d, o.k == O_BURST ? 6 : 1};
        if (o.k == O_SLOW)
            c.n = o.b;
        m.tell<Cmd>(a, c);
    }
    sim::sleep_ns(sim::MS);
    sim::faults_off();
    if (!S->faults_end)
        S->faults_end = sim::now() + 5 * sim::SEC;
    auto open = [&](RQ &q) -> const char * {
        if (q.outcome || S->stopping.count(q.src))
            return nullptr;
        if (!q.is_long)
            return "its timeout passed";
        return q.replied ? "it was answered" : nullptr;
    };
    if (pl.seed % 4) {
        bool ok = sim::wait_for(
            [&] {
                for (size_t i = 0; i < S->rq.size(); ++i)
                    if (open(S->rq[i]))
                        return false;
                return S->pending == 0 || !S->stopping.empty();
            },
            60 * sim::SEC, 20 * sim::MS);
        if (!ok)
            for (size_t i = 0; i < S->rq.size(); ++i)
                if (auto *why = open(S->rq[i])) {
                    auto &q = S->rq[i];
                    FAIL("req/no-outcome", "request %zu of actor %d (%s) to actor %d (mode %d): %s, but the requester got no "
                                           "outcome within 60 simulated seconds",
                         i, q.src, bk_name[q.bk], q.dst, q.mode, why);
                }
    }
    m.finish("req/no-shutdown");
}
sim::Reg r1({"C05", "requests", gen, run, op_names, pnames, 1, false});
} // namespace
