// C02 (and C04, C15): asynchronous operations of boost asio whose completion is forwarded to an actor.  Each of them
// calls one of the two handlers of the actor once, with its result, in the strand of the actor, and the messages sent
// there are delivered although nothing else happens.
#include "mesh.h"
#include <boost/asio.hpp>
#include <map>
#include <string>
using namespace rs;

namespace {
namespace asio = boost::asio;
using timer_t_ = asio::steady_timer;
enum { O_PLAIN = 1, O_VALUE, O_REF, O_RESULT, O_TIMER, O_CANCEL, O_STOP, O_SLEEP, O_N };
const char *op_names[] = {"", "post(actor,count,via-thread)", "post-a-value(actor,count)", "post-a-reference(actor,count)",
                          "result-or-error(actor,count,fails)", "wait(actor,us)", "cancel-the-wait(actor)", "stop(actor)", "sleep(us)"};
const char *pnames[sim::NPARAM] = {MESH_PNAMES, "operations hold resources", "stop in between"};
enum { Q_RES = P_USER, Q_STOP };

struct Arg { // a result
    int actor, id;
    std::string text;
    Arg(int a, int i) : actor(a), id(i), text("the result of an operation, which lives in the heap: " + std::to_string(i)) {}
    bool intact() const { return text == "the result of an operation, which lives in the heap: " + std::to_string(id); }
};
struct Cmd {
    int op, a, b;
};
struct Note {
    int from, seq;
};
struct AS { // per actor
    int plain = 0, plain_done = 0;
    int timers = 0, timers_ok = 0, timers_err = 0;
    uint64_t timer_due = 0;
    int sent[64] = {0}, got[64] = {0};
    kvec<int> ops; // with a result: 0 under way, 1 done
    kvec<int> fails;
};
struct St {
    Mesh m;
    AS a[64];
    int commands = 0, open = 0, notes = 0;
    bool res = false, stops = false;
};
St *S;

struct act_t : sact_t {
    using sact_t::sact_t;
    bool is_asio = false;
    r::plugin::resources_plugin_t *res = nullptr;
    std::unique_ptr<timer_t_> timer;
    bool waiting = false, cancelled = false;
    void on_configure(r::plugin::plugin_base_t &p) noexcept override {
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) {
            p.subscribe_actor(&act_t::on_cmd);
            p.subscribe_actor(&act_t::on_note);
        });
        p.with_casted<r::plugin::resources_plugin_t>([this](auto &p) { res = &p; });
    }
    asio::io_context::strand &strand() { return static_cast<r::asio::supervisor_asio_t &>(*supervisor).get_strand(); }
    asio::io_context &io() { return strand().context(); }
    void begin(int kind) {
        {
            sim::NoPreempt np;
            S->open++;
        }
        if (S->res)
            res->acquire(r::plugin::resource_id_t(kind));
    }
    void end(int kind) {
        {
            sim::NoPreempt np;
            S->open--;
            sim::probe("completions");
        }
        note();
        if (S->res)
            res->release(r::plugin::resource_id_t(kind));
    }
    void note() {
        int to, q;
        {
            sim::NoPreempt np;
            to = (tag + S->open) % S->m.n();
            q = S->a[tag].sent[to]++;
            S->notes++;
        }
        send<Note>(S->m.slots[size_t(to)].addr, tag, q);
    }
    void on_note(r::message_t<Note> &m) noexcept {
        Scope s(ent);
        sim::NoPreempt np;
        auto &g = S->a[tag].got[m.payload.from];
        if (m.payload.seq < g || (m.payload.seq > g && !S->stops))
            FAIL("msg/order", "actor %d received message %d from actor %d where %d was next", tag, m.payload.seq, m.payload.from, g);
        S->notes -= m.payload.seq + 1 - g;
        g = m.payload.seq + 1;
    }
    void stopping() noexcept override {
        if (timer) {
            cancelled = cancelled || timer->cancel();
        }
    }
    void on_cmd(r::message_t<Cmd> &m) noexcept {
        Scope s(ent);
        auto c = m.payload;
        {
            sim::NoPreempt np;
            S->commands--;
        }
        if (c.op == O_STOP)
            return do_shutdown();
        if (!is_asio || st() != r::state_t::OPERATIONAL)
            return;
        for (int i = 0; i < c.a; ++i)
            perform(c.op, c.b);
    }
    void perform(int op, int b) {
        namespace ra = r::asio;
        auto &me = S->a[tag];
        switch (op) {
        case O_PLAIN:
            begin(1);
            me.plain++;
            if (b % 2)
                asio::post(io(), ra::forwarder_t(*this, &act_t::on_plain));
            else
                asio::post(strand(), ra::forwarder_t(*this, &act_t::on_plain));
            break;
        case O_VALUE:
        case O_REF: {
            begin(2);
            int id = int(me.ops.size());
            me.ops.push_back(0);
            me.fails.push_back(0);
            if (op == O_VALUE)
                asio::post(io(), [f = ra::forwarder_t(*this, &act_t::on_value), a = Arg(tag, id)]() mutable { f(std::move(a)); });
            else
                asio::post(io(), [f = ra::forwarder_t(*this, &act_t::on_box), a = new Arg(tag, id)]() mutable { f(a); });
            break;
        }
        case O_RESULT: {
            begin(2);
            int id = int(me.ops.size());
            me.ops.push_back(0);
            me.fails.push_back(b % 3 == 0);
            boost::system::error_code ec;
            if (b % 3 == 0)
                ec = boost::system::error_code(1000 + id, boost::system::generic_category());
            asio::post(io(), [f = ra::forwarder_t(*this, &act_t::on_result, &act_t::on_error), ec, a = Arg(tag, id)]() mutable {
                f(ec, std::move(a));
            });
            break;
        }
        case O_TIMER:
            if (waiting)
                break;
            begin(3);
            if (!timer)
                timer = std::make_unique<timer_t_>(io());
            waiting = true, cancelled = false;
            timer->expires_after(std::chrono::microseconds(b));
            me.timer_due = sim::now() + uint64_t(b) * sim::US;
            timer->async_wait(ra::forwarder_t(*this, &act_t::on_wait, &act_t::on_wait_error));
            me.timers++;
            break;
        case O_CANCEL:
            if (waiting)
                cancelled = timer->cancel() || cancelled;
            break;
        }
    }
    void on_plain() noexcept {
        Scope s(ent);
        if (++S->a[tag].plain_done > S->a[tag].plain)
            FAIL("forward/twice", "actor %d was called for %d completions, but started %d operations only", tag, S->a[tag].plain_done,
                 S->a[tag].plain);
        end(1);
    }
    void complete(int id, bool err) {
        auto &me = S->a[tag];
        {
            sim::NoPreempt np;
            if (id < 0 || id >= int(me.ops.size()))
                FAIL("forward/phantom", "actor %d received the completion of an operation it never started", tag);
            if (me.ops[size_t(id)]++)
                FAIL("forward/twice", "actor %d received the completion of its operation %d twice", tag, id);
            if (bool(me.fails[size_t(id)]) != err)
                FAIL("forward/outcome", "operation %d of actor %d is reported as %s", id, tag, err ? "failed" : "done");
        }
        end(2);
    }
    void on_value(Arg a) noexcept { got(a); }
    void on_box(Arg *a) noexcept {
        got(*a);
        delete a;
    }
    void on_result(Arg a) noexcept { got(a); }
    void got(Arg &a) {
        Scope s(ent);
        if (a.actor != tag || !a.intact())
            FAIL("forward/corrupt", "actor %d received a wrong result", tag);
        complete(a.id, false);
    }
    void on_error(const boost::system::error_code &ec) noexcept {
        Scope s(ent);
        complete(ec.value() - 1000, true);
    }
    void on_wait() noexcept {
        Scope s(ent);
        if (!waiting || cancelled)
            FAIL("forward/outcome", "actor %d was told about the success of a wait, which is %s", tag, waiting ? "cancelled" : "over");
        if (sim::now() < S->a[tag].timer_due)
            FAIL("forward/early", "the wait of actor %d is over too early", tag);
        waiting = false;
        S->a[tag].timers_ok++;
        end(3);
    }
    void on_wait_error(const boost::system::error_code &ec) noexcept {
        Scope s(ent);
        if (!waiting || !cancelled || ec != asio::error::operation_aborted)
            FAIL("forward/outcome", "actor %d was told about the failure of a wait, which is %s", tag, waiting ? "under way" : "over");
        waiting = false;
        S->a[tag].timers_err++;
        end(3);
    }
};

void gen(Rng &g, Plan &pl) {
    gen_mesh(g, pl, 1 << B_ASIO | (g.one_in(2) ? 0x3f : 0), 2, 2, 3);
    pl.p[P_B0] = B_ASIO;
    if (pl.p[P_N] && pl.p[P_B1] == B_ASIO)
        pl.p[P_B1] = B_THREAD;
    pl.p[Q_RES] = g.one_in(2);
    pl.p[Q_STOP] = g.one_in(2);
    int ops = g.range(2, 30);
    for (int i = 0; i < ops; ++i) {
        int a = g.range(0, 99);
        switch (g.below(10)) {
        case 0: case 1:
            pl.ops.push_back(Op{O_PLAIN, a, g.range(1, 4), g.range(0, 1), 0});
            break;
        case 2:
            pl.ops.push_back(Op{O_VALUE, a, g.range(1, 4), 0, 0});
            break;
        case 3:
            pl.ops.push_back(Op{O_REF, a, g.range(1, 4), 0, 0});
            break;
        case 4: case 5:
            pl.ops.push_back(Op{O_RESULT, a, g.range(1, 4), g.range(0, 2), 0});
            break;
        case 6:
            pl.ops.push_back(Op{O_TIMER, a, 1, g.pick({0, 1, 300, 5000, 200000}), 0});
            break;
        case 7:
            pl.ops.push_back(Op{O_CANCEL, a, 1, 0, 0});
            break;
        case 8:
            if (pl.p[Q_STOP] && g.one_in(2)) {
                pl.ops.push_back(Op{O_STOP, a, 0, 0, 0});
                break;
            }
            [[fallthrough]];
        default:
            pl.ops.push_back(Op{O_SLEEP, g.pick({1, 20, 300, 5000, 100000}), 0, 0, 0});
        }
    }
}

void run(Plan &pl) {
    world_init();
    S = new (malloc(sizeof(St))) St();
    S->res = pl.p[Q_RES];
    for (auto &op : pl.ops)
        S->stops = S->stops || op.k == O_STOP;
    auto &m = S->m;
    m.factory = [&](r::supervisor_t &sup, int tag) -> r::intrusive_ptr_t<r::actor_base_t> {
        auto a = sup.create_actor<act_t>().tag(tag).timeout(ms(LONG_MS)).finish();
        a->is_asio = m.nodes.back()->bk == B_ASIO;
        return a;
    };
    m.build(pl);
    m.start();
    if (!m.wait_started())
        FAIL("start/stuck", "not everything started");
    for (auto &o : pl.ops) {
        sim::yield();
        if (o.k == O_SLEEP) {
            sim::sleep_ns(uint64_t(o.a) * sim::US);
            continue;
        }
        {
            sim::NoPreempt np;
            S->commands++;
        }
        m.tell<Cmd>(o.a % m.n(), Cmd{o.k, o.b, o.c});
    }
    if (!S->stops || pl.seed % 2) {
        sim::faults_off();
        bool ok = sim::wait_for([] { return (S->stops || (!S->commands && !S->notes)) && !S->open; }, 60 * sim::SEC, 20 * sim::MS);
        if (!ok && !S->open)
            FAIL("msg/lost", "%d commands and %d messages sent by completions were not delivered within 60 simulated seconds",
                 S->commands, S->notes);
        if (!ok)
            FAIL("forward/lost", "%d operations were not completed within 60 simulated seconds", S->open);
    }
    m.finish("forward/no-shutdown");
    if (S->open)
        FAIL("forward/lost", "%d operations were never reported", S->open);
}
sim::Reg reg_({"C02", "asio-forwarders", gen, run, op_names, pnames, 1, false});
} // namespace
