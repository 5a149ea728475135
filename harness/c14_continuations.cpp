#include "common.h"
// C14: a continuation runs exactly once, after readiness, where it was asked to.

namespace
{
// outcome put into the parent: 0 value 7, 1 exception Oops{9}, 2 abandoned
const int outcome_code[3] = {7, 1009, -2};
void satisfy(std::unique_ptr<tpp::promise<int>>& p, int outcome)
{
    if(outcome == 0) p->set_value(7);
    else if(outcome == 1) p->set_exception(std::make_exception_ptr(Oops{9}));
    else p.reset();
}
struct Cont
{
    Probe probe;
    mc::Var<int> seen{0};
    mc::Var<bool>* set_started;
    explicit Cont(mc::Var<bool>* s) : set_started(s) {}
    template<typename F>
    void run(F& f)
    {
        probe.hit();
        MC_CHECK(*set_started, "continuation ran before the result was set");
        MC_CHECK(f.valid() && f.is_ready(), "continuation received a parent that is not ready");
        seen = get_code([&] { return (int)f.get(); });
    }
};
// result of a continuation: 0 value, 1 throws
int conclude(int what)
{
    if(what == 1) throw Oops{21};
    return 20;
}
const int conclude_code[2] = {20, 1021};
std::launch policies(int p)
{
    return p == 0 ? (std::launch::async | std::launch::deferred) : p == 1 ? std::launch::async : std::launch::deferred;
}
} // namespace

// attach and set race; all targets
static void attach_vs_set(bool shared)
{
    // target: worker T, main itself, the setting thread, untargeted
    int target = mc::choose(4, "target"), outcome = mc::choose(3, "outcome"), ends = mc::choose(2, "ends");
    int policy = mc::choose(3, "policy");
    Session s;
    auto me = tt::get_id();
    auto t = tpp::make_thread("T");
    auto setter = tpp::make_thread("S");
    mc::settle();
    auto p = std::make_unique<tpp::promise<int>>();
    auto f = p->get_future();
    mc::Var<bool> set_started{false};
    Cont c(&set_started);
    tid want = target == 0 ? t.get_id() : target == 1 ? me : target == 2 ? setter.get_id() : 0;
    int got;
    {
        Explore e;
        tpp::invoke(setter.get_id(), [&] { set_started = true; satisfy(p, outcome); });
        tpp::future<int> r;
        auto attach = [&](auto& x) {
            auto body = [&](auto y) { c.run(y); return conclude(ends); };
            if(target == 3) return policy == 0 ? x.then(body) : x.then(policies(policy), body);
            return policy == 0 ? x.then(want, body) : x.then(want, policies(policy), body);
        };
        if(shared)
        {
            auto sf = f.share();
            r = attach(sf);
            MC_CHECK(sf.valid(), "shared future invalid after then");
        }
        else
        {
            r = attach(f);
            MC_CHECK(!f.valid(), "unique future still valid after then");
        }
        got = get_code([&] { return r.get(); });
    }
    mc::settle();
    MC_CHECK((int)c.probe.runs == 1, "continuation ran %d times", (int)c.probe.runs);
    if(target != 3) MC_CHECK(c.probe.where == want, "continuation ran on thread %d, asked for %d", (int)c.probe.where.get(), (int)want);
    else MC_CHECK(c.probe.where != me && c.probe.where != t.get_id() && c.probe.where != setter.get_id() && c.probe.where != 0, "untargeted continuation ran on %d", (int)c.probe.where.get());
    MC_CHECK(c.seen == outcome_code[outcome], "continuation saw %d, stored was %d", c.seen.get(), outcome_code[outcome]);
    MC_CHECK(got == conclude_code[ends], "future of the continuation delivered %d", got);
    p.reset();
}
SCENARIO(attach_vs_set_unique, 3, 4, 0, 0) { attach_vs_set(false); }
SCENARIO(attach_vs_set_shared, 3, 4, 0, 0) { attach_vs_set(true); }

// several continuations of one shared state attached by two threads while it is set
SCENARIO(many_on_shared, 3, 4, 0, 0)
{
    int outcome = mc::choose(3, "outcome"), early = mc::choose(3, "attached early");
    Session s;
    auto me = tt::get_id();
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    mc::settle();
    auto p = std::make_unique<tpp::promise<int>>();
    auto sf = p->get_future().share();
    mc::Var<bool> set_started{false};
    std::vector<std::unique_ptr<Cont>> c;
    std::vector<tpp::future<int>> r(4);
    for(int i = 0; i < 4; ++i) c.push_back(std::make_unique<Cont>(&set_started));
    auto attach = [&](int i, tid where) {
        auto mine = sf;
        r[i] = mine.then(where, [&, i](tpp::shared_future<int> y) { c[i]->run(y); return i; });
    };
    for(int i = 0; i < early; ++i) attach(i, i ? me : id);
    {
        Explore e;
        Raw a([&] { for(int i = early; i < 3; ++i) attach(i, id); });
        Raw b([&] { set_started = true; satisfy(p, outcome); });
        attach(3, me);
    }
    for(int i = 0; i < 4; ++i)
    {
        int g = get_code([&] { return r[i].get(); });
        MC_CHECK(g == i, "continuation %d delivered %d", i, g);
    }
    for(int i = 0; i < 4; ++i)
    {
        c[i]->probe.expect("continuation", 1, i == 3 || (i == 1 && early > 1) ? me : id);
        MC_CHECK(c[i]->seen == outcome_code[outcome], "continuation %d saw %d", i, c[i]->seen.get());
    }
    p.reset();
}

// chains over several threads; errors travel to the end
SCENARIO(chains, 3, 4, 0, 0)
{
    int fail_at = mc::choose(5, "fails at"); // 0 parent, 1..3 link, 4 none
    int lazy = mc::choose(2, "attach late");
    Session s;
    auto me = tt::get_id();
    auto t = tpp::make_thread("T"), u = tpp::make_thread("U");
    tid where[3] = {t.get_id(), u.get_id(), me};
    mc::settle();
    tpp::promise<int> p;
    auto f = p.get_future();
    Probe pr[3];
    int got;
    {
        Explore e;
        Raw r([&] {
            if(fail_at == 0) p.set_exception(std::make_exception_ptr(Oops{0}));
            else p.set_value(0);
        });
        if(lazy) r.join(), r.t = std::thread([] {});
        for(int i = 0; i < 3; ++i)
            f = f.then(where[i], [&, i](tpp::future<int> x) {
                pr[i].hit();
                MC_CHECK(x.is_ready(), "parent not ready");
                if(fail_at == i + 1) throw Oops{i + 1};
                return x.get() * 2 + 1;
            });
        got = get_code([&] { return f.get(); });
    }
    for(int i = 0; i < 3; ++i) pr[i].expect("link", 1, where[i]);
    MC_CHECK(got == (fail_at == 4 ? 7 : 1000 + fail_at), "chain delivered %d", got);
}
// void chains, shared links, continuation attached from inside a continuation
SCENARIO(nested_attach, 99, 99, 0, 0)
{
    int late = mc::choose(3, "inner parent"); // already ready / set by other thread / set by outer continuation
    Session s;
    auto me = tt::get_id();
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    mc::settle();
    tpp::promise<void> p, q;
    auto f = p.get_future(), g = q.get_future();
    Probe a, b, c;
    if(late == 0) q.set_value();
    {
        Explore e;
        Raw r([&] { p.set_value(); if(late == 1) q.set_value(); });
        auto h = f.then(id, [&](tpp::future<void> x) {
            a.hit();
            x.get();
            auto inner = g.then(id, [&](tpp::future<void> y) { y.get(); b.hit(); });
            if(late == 2) q.set_value();
            inner.get();
            MC_CHECK((int)b.runs == 1, "inner continuation done after get");
        });
        auto sh = h.share();
        auto z = sh.then(me, [&](tpp::shared_future<void> x) { x.get(); c.hit(); });
        z.get();
        sh.get();
    }
    a.expect("outer", 1, id);
    b.expect("inner", 1, id);
    c.expect("last", 1, me);
}

// policy: queued although on the target already, or run right away
template<typename T> static void set7(tpp::promise<T>& p) { p.set_value(7); }
static void set7(tpp::promise<void>& p) { p.set_value(); }
template<typename F> static void get7(F& f) { MC_CHECK(f.get() == 7, "value"); }
static void get7(tpp::future<void>& f) { f.get(); }
static void get7(tpp::shared_future<void>& f) { f.get(); }

template<typename T> static void policies_on_own_thread()
{
    int policy = mc::choose(3, "policy"), ready = mc::choose(2, "ready"), shared = mc::choose(2, "shared"), id0 = mc::choose(2, "caller id");
    Session s;
    auto me = tt::get_id();
    tpp::promise<T> p;
    auto f = p.get_future();
    Probe c;
    if(ready) set7(p);
    tpp::future<void> r;
    tid target = id0 ? tpp::caller_id() : me;
    auto attach = [&](auto& x) { return x.then(target, policies(policy), [&](auto y) { c.hit(); get7(y); }); };
    tpp::shared_future<T> sf;
    if(shared) { sf = f.share(); r = attach(sf); }
    else r = attach(f);
    if(!ready)
    {
        MC_CHECK((int)c.runs == 0 && !r.is_ready(), "ran before readiness");
        set7(p);
    }
    if(policy == 1)
    {
        MC_CHECK((int)c.runs == 0 && !r.is_ready(), "policy async ran in place");
        MC_CHECK(tpp::get_pending_task_count(me) == 1, "queued");
        tt::process();
    }
    c.expect("continuation", 1, me);
    MC_CHECK(r.is_ready() && !r.has_error(), "result");
    r.get();
}
SCENARIO(policies_on_own_thread, 0, 0, 0, 0) { policies_on_own_thread<int>(); }
SCENARIO(policies_on_own_thread_void, 0, 0, 0, 0) { policies_on_own_thread<void>(); }

// attached by a thread the library does not know, set by another such thread
SCENARIO(unregistered_attach_and_set, 99, 99, 0, 0)
{
    int outcome = mc::choose(3, "outcome"), shared = mc::choose(2, "shared");
    Session s;
    auto me = tt::get_id();
    auto p = std::make_unique<tpp::promise<int>>();
    auto f = p->get_future();
    mc::Var<bool> set_started{false};
    Cont c(&set_started);
    tpp::future<int> r;
    {
        Explore e;
        Raw a([&] {
            auto body = [&](auto y) { c.run(y); return 5; };
            if(shared) r = f.share().then(me, body);
            else r = f.then(me, body);
        });
        Raw b([&] { set_started = true; satisfy(p, outcome); });
        a.join();
        MC_CHECK(r.get() == 5, "delivered");
        a.t = std::thread([] {});
    }
    c.probe.expect("continuation", 1, me);
    MC_CHECK(c.seen == outcome_code[outcome], "saw %d", c.seen.get());
    p.reset();
}

// continuation on a worker pool result and on async
SCENARIO(on_async_and_pool, 99, 99, 0, 0)
{
    int src = mc::choose(3, "source");
    bool fails = mc::choose(2, "fails");
    Session s;
    auto me = tt::get_id();
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    std::unique_ptr<tpp::thread_pool> pool;
    if(src == 1) pool = std::make_unique<tpp::thread_pool>(std::map<tpp::priority::category, size_t>{{tpp::priority::category::normal, 1}});
    mc::settle();
    Probe c;
    auto fn = [&]() -> int { if(fails) throw Oops{3}; return 3; };
    int got;
    {
        Explore e;
        auto cont = [&](tpp::future<int> x) { c.hit(); MC_CHECK(x.is_ready(), "ready"); return x.get() + 1; };
        tpp::future<int> r;
        if(src == 0) r = tpp::async(id, fn).then(me, cont);
        else if(src == 1) r = pool->schedule(fn).then(me, cont);
        else r = tpp::async(fn).then(me, cont);
        got = get_code([&] { return r.get(); });
    }
    mc::settle();
    c.expect("continuation", 1, me);
    MC_CHECK(got == (fails ? 1003 : 4), "delivered %d", got);
}
