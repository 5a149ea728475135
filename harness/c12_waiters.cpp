#include "common.h"
// C12: waiters on a future are released when, and only when, it is ready.

namespace
{
enum { k_wait, k_get, k_for, k_until, n_kinds };
// returns the outcome of the call; 7 is the stored value, 1009 the stored error
template<typename F>
int enter(F& f, int kind)
{
    switch(kind)
    {
        case k_wait: f.wait(); return f.is_ready() ? 7 : -50;
        case k_for: { auto r = f.wait_for(1h); return r == std::future_status::ready && f.is_ready() ? 7 : -51; }
        case k_until: { auto r = f.wait_until(std::chrono::steady_clock::now() + 1h); return r == std::future_status::ready && f.is_ready() ? 7 : -52; }
        default: { int c = get_code([&] { return (int)f.get(); }); return c == 1009 ? 7 : c; }
    }
}
void set(tpp::promise<int>& p, bool err)
{
    if(err) p.set_exception(std::make_exception_ptr(Oops{9}));
    else p.set_value(7);
}
} // namespace

// two registered threads wait, a third sets
SCENARIO(two_waiters, 4, 5, 0, 0)
{
    int ka = mc::choose(n_kinds, "a"), kb = mc::choose(n_kinds, "b");
    bool err = mc::choose(2, "error");
    Session s;
    tpp::promise<int> p;
    auto sf = p.get_future().share();
    mc::Var<int> ra{0}, rb{0};
    mc::Var<bool> was_set{false};
    Gate start;
    {
        auto body = [&](int k, mc::Var<int>& out) {
            tt::register_this_thread();
            auto mine = sf;
            start.pass();
            int c = enter(mine, k);
            MC_CHECK(was_set, "wait returned before the result was set");
            out = c;
            tt::unregister_this_thread();
        };
        Raw a([&] { body(ka, ra); });
        Raw b([&] { body(kb, rb); });
        mc::settle();
        auto t0 = mc::now();
        Explore e;
        start.open();
        was_set = true;
        set(p, err);
        mc::settle();
        MC_CHECK(ra != 0 && rb != 0, "a waiter was not released (%d %d)", ra.get(), rb.get());
        MC_CHECK(ra == 7 && rb == 7, "waiters got %d and %d", ra.get(), rb.get());
        MC_CHECK(mc::now() - t0 < 1000000, "released by timeout");
    }
}

// a wait that is never answered stays blocked whatever else happens to the thread
SCENARIO(stays_blocked, 8, 9, 0, 1)
{
    int k = mc::choose(n_kinds, "kind"), noise = mc::choose(3, "noise");
    Session s;
    tpp::promise<int> p, other;
    auto f = p.get_future();
    mc::Var<int> out{0};
    mc::Var<tid> wid{0};
    Gate start;
    {
        Raw w([&] {
            tt::register_this_thread();
            wid = tt::get_id();
            start.pass();
            out = enter(f, k);
            tt::unregister_this_thread();
        });
        mc::settle();
        {
            Explore e;
            start.open();
            if(noise == 0) tpp::notify(wid);
            if(noise == 1) { tpp::invoke(wid, [] {}); tpp::invoke(wid, [] {}); }
            if(noise == 2) { tpp::invoke(wid, [&] { auto g = other.get_future(); other.set_value(1); g.get(); }); }
            mc::settle();
        }
        MC_CHECK(out == 0, "wait returned %d before the result was set", out.get());
        p.set_value(7);
        mc::settle();
        MC_CHECK(out == 7, "not released");
    }
}

// the same thread waits on the same state again, from a task it serves while waiting
SCENARIO(nested_on_same_state, 99, 99, 0, 0)
{
    int outer = mc::choose(n_kinds, "outer"), inner = mc::choose(n_kinds + 1, "inner");
    Session s;
    tpp::promise<int> p;
    auto sf = p.get_future().share();
    mc::Var<int> ro{0}, ri{0};
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    mc::settle();
    auto t0 = mc::now();
    {
        Explore e;
        tpp::invoke(id, [&] { auto m = sf; ro = enter(m, outer); });
        tpp::invoke(id, [&] {
            auto m = sf;
            if(inner == n_kinds) ri = m.wait_for(0s) == std::future_status::ready ? 7 : 8;
            else ri = enter(m, inner);
        });
        p.set_value(7);
        mc::settle();
    }
    MC_CHECK(ri == 7 || (inner == n_kinds && ri == 8), "inner wait on the same state gave %d", ri.get());
    MC_CHECK(ro == 7, "outer wait gave %d after the result was set", ro.get());
    MC_CHECK(mc::now() - t0 < 1000000, "released by timeout");
}
// inner timed wait expires while the outer one goes on
SCENARIO(nested_expires, 2, 3, 0, 0)
{
    int outer = mc::choose(n_kinds, "outer"), levels = 1 + mc::choose(2, "levels");
    Session s;
    tpp::promise<int> p;
    auto sf = p.get_future().share();
    mc::Var<int> ro{0}, inner{0};
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    tpp::invoke(id, [&] { auto m = sf; ro = enter(m, outer); });
    for(int i = 0; i < levels; ++i)
        tpp::invoke(id, [&] { auto m = sf; MC_CHECK(m.wait_for(1ms) == std::future_status::timeout, "nothing set yet"); inner++; });
    std::this_thread::sleep_for(100ms);
    mc::settle();
    MC_CHECK(inner == levels && ro == 0, "inner waits expired, outer still waiting");
    auto t0 = mc::now();
    {
        Explore e;
        p.set_value(7);
        mc::settle();
    }
    MC_CHECK(ro == 7, "outer wait was not released after an inner wait on the same state had expired");
    MC_CHECK(mc::now() - t0 < 1000000, "released by timeout");
}
// an expired wait does not disturb later ones
SCENARIO(expired_earlier, 8, 9, 1, 0)
{
    int k = mc::choose(n_kinds, "kind");
    Session s;
    tpp::promise<int> p;
    auto f = p.get_future();
    {
        Explore e;
        Raw r([&] { std::this_thread::sleep_for(1ms); p.set_value(7); });
        int n = 0;
        while(f.wait_for(300us) != std::future_status::ready && n < 2) ++n;
        auto t0 = mc::now();
        int c = enter(f, k);
        bool expired = (c == -51 || c == -52) && mc::now() - t0 >= 3600000000000ull;
        MC_CHECK(c == 7 || expired, "wait after expired waits gave %d", c);
    }
}

// set from a task the waiting thread serves itself; from a continuation; with several shared states
SCENARIO(set_by_served_task, 99, 99, 0, 0)
{
    int k = mc::choose(n_kinds, "kind");
    bool err = mc::choose(2, "error");
    Session s;
    tpp::promise<int> p, q;
    auto f = p.get_future(), g = q.get_future();
    auto me = tt::get_id();
    auto t0 = mc::now();
    {
        Explore e;
        auto h = g.then(me, [&](tpp::future<int>) { set(p, err); });
        Raw r([&] { q.set_value(1); });
        int c = enter(f, k);
        MC_CHECK(c == 7, "gave %d", c);
    }
    MC_CHECK(mc::now() - t0 < 1000000, "released by timeout");
}

// an exit notification ends the wait, but a get never invents a result
template<typename T>
static void exit_get(bool shared, bool set_too)
{
    Session s;
    auto p = std::make_unique<tpp::promise<T>>();
    auto f = p->get_future();
    tpp::shared_future<T> sf;
    if(shared) sf = f.share();
    mc::Var<int> code{0};
    mc::Var<bool> was_set{false}, exit_asked{false};
    Gate start;
    {
        tpp::thread t([&] {
            tt::register_this_thread();
            start.pass();
            auto out = [&](auto& x) {
                return get_code([&] {
                    if constexpr(std::is_void<T>::value) { x.get(); return 7; }
                    else return (int)x.get();
                });
            };
            int c = shared ? out(sf) : out(f);
            if(c == 7) MC_CHECK(was_set, "get produced a result that was never set");
            else MC_CHECK(exit_asked, "get threw without an exit request");
            code = c;
            tt::unregister_this_thread();
        });
        auto id = t.get_id();
        mc::settle();
        Explore e;
        start.open();
        {
            std::unique_ptr<Raw> r;
            if(set_too) r = std::make_unique<Raw>([&] { was_set = true; if constexpr(std::is_void<T>::value) p->set_value(); else p->set_value(7); });
            exit_asked = true;
            tpp::notify_for_exit(id);
        }
        mc::settle();
        MC_CHECK(code != 0, "get did not return after the exit notification");
        MC_CHECK(code == 7 || code < 0, "get gave %d", code.get());
    }
}
SCENARIO(exit_while_getting, 99, 99, 0, 0)
{
    bool shared = mc::choose(2, "shared"), set_too = mc::choose(2, "set too");
    if(mc::choose(2, "void")) exit_get<void>(shared, set_too);
    else exit_get<int>(shared, set_too);
}

// the future and the promise die right after use, on different threads
SCENARIO(lifetimes, 99, 99, 0, 0)
{
    int k = mc::choose(2, "kind");
    Session s;
    {
        Explore e;
        tpp::promise<int> p;
        auto f = p.get_future();
        Raw r([p = std::move(p)]() mutable { tpp::promise<int> mine(std::move(p)); mine.set_value(7); });
        {
            tpp::future<int> mine(std::move(f));
            MC_CHECK(enter(mine, k) == 7, "value");
        }
    }
}

// a continuation that the setter runs in place may itself wait for the threads that wait for the result
SCENARIO(continuation_waits_for_waiter, 99, 99, 0, 0)
{
    int k = mc::choose(n_kinds, "call"), err = mc::choose(2, "error"), before = mc::choose(2, "attached before"), outer = mc::choose(3, "in the continuation");
    Session s;
    auto me = tt::get_id();
    tpp::promise<int> p;
    auto sf = p.get_future().share();
    mc::Var<int> out{0};
    Gate left;
    auto t0 = mc::now();
    tpp::future<void> c;
    auto attach = [&] {
        c = sf.then(me, [&](tpp::shared_future<int> x) {
            MC_CHECK(x.is_ready(), "not ready");
            if(outer == 0) left.pass();
            else if(outer == 1) while(!out) mc::yield();
            else while(!out) tt::wait_for(1ms);
        });
    };
    Raw w([&] {
        tt::register_this_thread();
        auto mine = sf;
        out = enter(mine, k);
        left.open();
        tt::unregister_this_thread();
    });
    if(before) attach();
    mc::settle();
    if(!before) attach();
    {
        Explore e;
        set(p, err);
        c.get();
    }
    w.join();
    MC_CHECK(out == 7, "outcome %d", out.get());
    MC_CHECK(mc::now() - t0 < 1000000000, "released by timeout");
}
