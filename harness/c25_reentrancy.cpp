#include "pool_common.h"
#include <functional>
// C25: user code is never called with library locks held.
// Every place where the library runs user code, combined with every group of library calls from there.

namespace
{
// runs a function when it is destroyed
struct Guard
{
    std::function<void()> f;
    explicit Guard(std::function<void()> x) : f(std::move(x)) {}
    Guard(const Guard&) = delete;
    ~Guard()
    {
        if(f) f();
    }
};
using GuardPtr = std::shared_ptr<Guard>;

struct Env
{
    tpp::thread t;
    tid id = 0, dead = 0;
    std::unique_ptr<tpp::thread_pool> pool;
    mc::Count done, ran;
    mc::Count expect_ran;

    void open()
    {
        t = tpp::make_thread("T");
        id = t.get_id();
        {
            auto x = tpp::make_thread("dead");
            dead = x.get_id();
        }
        pool = std::make_unique<tpp::thread_pool>(levels{{level::normal, 1}});
        mc::settle();
    }
    enum { n_actions = 11 };
    // library calls made from inside user code; p: the pool to talk to
    void act(int k, tpp::thread_pool* p)
    {
        auto count = [this] { ran.add(); };
        switch(k)
        {
            case 0: expect_ran.add(); MC_CHECK(tpp::invoke(id, count), "send"); break;
            case 1:
                tpp::get_all_registered_threads();
                tpp::get_pending_task_count(id);
                tpp::get_pending_task_count(tt::get_id());
                tpp::main_thread::get_id();
                tt::get_depth();
                tpp::set_thread_config(id, {4, 8});
                break;
            case 2:
            {
                tpp::promise<int> q;
                auto f = q.get_future().then(tt::get_id(), [](tpp::future<int> x) { return x.get(); });
                q.set_value(3);
                if(tt::is_registered() && !tt::notified_for_exit()) MC_CHECK(f.get() == 3, "continuation");
                break;
            }
            case 3:
                p->schedule([this] { ran.add(0); });
                break;
            case 4:
                p->get_jobs_count();
                p->wait(12345);
                p->change_priority(1, tpp::priority::high(7));
                p->change_priority(2, tpp::priority::high(7));
                break;
            case 5: p->stop(1); p->stop(2); p->stop(3); break;
            case 6: p->stop_all(); break;
            case 7:
            {
                auto x = tpp::make_thread("X");
                expect_ran.add();
                tpp::async(x.get_id(), count).wait();
                while((int)ran < (int)expect_ran) std::this_thread::yield();
                break;
            }
            case 8:
            {
                std::mutex m;
                tpp::condition_variable cv;
                std::unique_lock<std::mutex> l(m);
                cv.wait_for(l, 1us);
                cv.notify_all();
                tpp::mutex tm;
                std::lock_guard<tpp::mutex> g(tm);
                break;
            }
            case 9: tpp::notify(id); tpp::notify(tt::get_id()); tpp::notify_for_exit(dead); tt::process(); break;
            case 10:
            {
                auto r = tpp::when_any(tpp::make_ready_future(1), tpp::promise<int>().get_future());
                MC_CHECK(r.is_ready() || !tt::is_registered(), "when_any");
                auto d = tpp::async(dead, [] { return 1; });
                MC_CHECK(d.is_ready() && d.has_error(), "dropped task");
                break;
            }
        }
        done.add();
    }
    void close(int at_least)
    {
        mc::settle();
        if((int)done < at_least) std::this_thread::sleep_for(1ms); // timed calls end
        mc::settle();
        MC_CHECK((int)done >= at_least, "user code called %d times", (int)done);
        MC_CHECK((int)ran >= (int)expect_ran, "calls made from user code had no effect (%d of %d)", (int)ran, (int)expect_ran);
        pool.reset();
    }
};
} // namespace

// destructors of captured values and of tasks
SCENARIO(task_destructors, 3, 4, 0, 0)
{
    int k = mc::choose(Env::n_actions, "action"), place = mc::choose(8, "place");
    Session s;
    Env e;
    e.open();
    auto* pool = e.pool.get();
    auto g = std::make_shared<Guard>([&e, k, pool] { e.act(k, pool); });
    {
        Explore x;
        switch(place)
        {
            case 0: tpp::invoke(e.id, [h = std::move(g)] {}); break;              // after it ran
            case 1: tpp::invoke(e.dead, [h = std::move(g)] {}); break;            // refused
            case 2: tpp::async(e.id, [h = std::move(g)] { return 1; }).wait(); break;
            case 3: tpp::async(e.dead, [h = std::move(g)] { return 1; }).wait(); break;
            case 4:                                                               // dropped at exit
            {
                auto y = tpp::make_thread("Y");
                Gate go, started;
                tpp::invoke(y.get_id(), [&] { started.open(); go.pass(); });
                started.pass();
                tpp::invoke(y.get_id(), [h = std::move(g)] {});
                tpp::notify_for_exit(y.get_id());
                go.open();
                y.join();
                break;
            }
            case 5: tpp::dispatch(tt::get_id(), [h = std::move(g)] {}); break;
            case 6: { auto f = tpp::async([h = std::move(g)] { return 1; }); f.wait(); break; } // fresh thread
            case 7: // dropped when the thread unregisters itself
            {
                tid id = 0;
                Gate reg, go;
                Raw r([&] { tt::register_this_thread(); id = tt::get_id(); reg.open(); go.pass(); tt::unregister_this_thread(); });
                reg.pass();
                tpp::invoke(id, [h = std::move(g)] {});
                go.open();
                r.join();
                r.t = std::thread([] {});
                break;
            }
        }
        mc::settle();
    }
    e.close(1);
}

// pool jobs being stopped, dropped, run
SCENARIO(pool_destructors, 2, 3, 0, 0)
{
    int k = mc::choose(Env::n_actions, "action"), place = mc::choose(7, "place");
    Session s;
    Env e;
    e.open();
    Gate go, started;
    auto pool = std::make_unique<tpp::thread_pool>(levels{{level::normal, 1}});
    auto* raw = pool.get();
    bool same = place != 6 && mc::choose(2, "same pool"); // a pool being assigned to is not for other threads
    auto g = std::make_shared<Guard>([&e, k, raw, same] { e.act(k, same ? raw : e.pool.get()); });
    auto first = pool->schedule([&] { started.open(); go.pass(); });
    started.pass();
    auto j = pool->schedule([h = std::move(g)] { return 1; });
    auto j2 = pool->schedule([] { return 1; });
    auto id = j.id;
    {
        Explore x;
        switch(place)
        {
            case 0: pool->stop(id); break;
            case 1: pool->stop_all(); break;
            case 2: j.stop(); break;
            case 3: { Raw r([&] { go.open(); }); pool.reset(); break; }
            case 4: go.open(); j.wait(); break; // runs
            case 5: { Raw r([&] { go.open(); }); pool->stop(id); pool->wait_all(); break; }
            case 6: { Raw r([&] { go.open(); }); *pool = tpp::thread_pool(levels{}); break; }
        }
        mc::settle();
    }
    go.open();
    pool.reset();
    e.close(1);
}

// continuations: run at set, at attach, at abandon, on stop
SCENARIO(continuations, 3, 4, 0, 0)
{
    int k = mc::choose(Env::n_actions, "action"), place = mc::choose(9, "place");
    Session s;
    Env e;
    e.open();
    auto me = tt::get_id();
    auto* raw = e.pool.get();
    Gate go, started;
    auto body = [&e, k, raw](auto) { e.act(k, raw); };
    {
        Explore x;
        auto p = std::make_unique<tpp::promise<int>>();
        switch(place)
        {
            case 0: { auto f = p->get_future().then(me, body); p->set_value(1); f.get(); break; }
            case 1: { p->set_value(1); auto f = p->get_future().then(me, body); f.get(); break; }
            case 2: { auto f = p->get_future().then(me, body); p.reset(); f.get(); break; }
            case 3: { auto f = p->get_future().then(me, body); p->set_exception(std::make_exception_ptr(Oops{1})); f.get(); break; }
            case 4: { auto f = p->get_future().then(e.id, body); p->set_value(1); f.get(); break; }
            case 5: // two on a shared state: both run
            {
                auto sf = p->get_future().share();
                auto f = sf.then(me, body), g = sf.then(me, body);
                p->set_value(1);
                f.get();
                g.get();
                break;
            }
            case 6: case 7: case 8: // of a pool job that is stopped or finishes
            {
                auto first = e.pool->schedule([&] { started.open(); go.pass(); });
                started.pass();
                auto j = e.pool->schedule([] { return 1; });
                auto id = j.id;
                auto f = j.then(me, body);
                if(place == 6) e.pool->stop(id);
                if(place == 7) e.pool->stop_all();
                go.open();
                f.get();
                break;
            }
        }
        mc::settle();
    }
    e.close(1);
}
// a continuation of a pool job run by the worker itself
SCENARIO(continuation_on_worker, 3, 4, 0, 0)
{
    int k = mc::choose(Env::n_actions, "action");
    Session s;
    Env e;
    e.open();
    auto* raw = e.pool.get();
    {
        Explore x;
        auto outer = e.pool->schedule([&] {
            auto q = std::make_unique<tpp::promise<int>>();
            auto f = q->get_future().then(tt::get_id(), [&](tpp::future<int>) { e.act(k, raw); });
            q.reset();
            return f.is_ready();
        });
        MC_CHECK(outer.get(), "continuation ran in place");
        mc::settle();
    }
    e.close(1);
}

// continuations of the combined futures, including completing other inputs from there
SCENARIO(combined, 5, 6, 0, 0)
{
    int k = mc::choose(Env::n_actions + 1, "action"), any = mc::choose(2, "any"), range = mc::choose(2, "range"), when = mc::choose(2, "ready before");
    Session s;
    Env e;
    e.open();
    auto me = tt::get_id();
    auto* raw = e.pool.get();
    tpp::promise<int> p, q;
    auto body = [&](auto) {
        if(k == Env::n_actions) { if(any) q.set_value(2); e.done.add(); }
        else e.act(k, raw);
    };
    std::vector<tpp::future<int>> f;
    f.push_back(p.get_future());
    f.push_back(q.get_future());
    {
        Explore x;
        if(when) { p.set_value(1); if(!any) q.set_value(1); }
        tpp::future<void> c;
        if(any && range) c = tpp::when_any(f.begin(), f.end()).then(me, body);
        else if(any) c = tpp::when_any(f[0], f[1]).then(me, body);
        else if(range) c = tpp::when_all(f.begin(), f.end()).then(me, body);
        else c = tpp::when_all(f[0], f[1]).then(me, body);
        if(!when) { p.set_value(1); if(!any) q.set_value(1); }
        c.get();
        mc::settle();
    }
    e.close(1);
}
// the continuation waits for another thread that completes a second input
SCENARIO(combined_waits, 8, 9, 0, 0)
{
    int range = mc::choose(2, "range");
    Session s;
    auto t = tpp::make_thread("T");
    mc::settle();
    tpp::promise<int> p, q;
    std::vector<tpp::future<int>> f;
    f.push_back(p.get_future());
    f.push_back(q.get_future());
    mc::Var<int> ok{0};
    {
        Explore x;
        // combined on a thread the library does not know: its callbacks run where the inputs are set
        Raw c([&] {
            auto body = [&](auto) {
                auto done = tpp::async(t.get_id(), [&] { q.set_value(2); });
                while(!done.is_ready()) std::this_thread::yield();
                ok = 1;
            };
            if(range) tpp::when_any(f.begin(), f.end()).then(tpp::caller_id(), body);
            else tpp::when_any(f[0], f[1]).then(tpp::caller_id(), body);
        });
        c.join();
        Raw d([&] { p.set_value(1); });
        d.join();
        c.t = std::thread([] {});
        d.t = std::thread([] {});
        mc::settle();
    }
    MC_CHECK(ok == 1, "continuation");
}

// logging callbacks
SCENARIO(logging, 3, 4, 0, 0)
{
    int k = mc::choose(Env::n_actions, "action"), place = mc::choose(6, "place");
    Env e;
    mc::Var<int> phase{0}, busy{0};
    mc::Count in_init, in_shutdown, errors, names, starts;
    auto act = [&] {
        if(busy == 1) return;
        busy = 1;
        if(phase == 0 || phase == 3)
        {
            // no worker threads or pools around init and shutdown
            if(k == 0) tpp::invoke(tpp::main_thread::get_id(), [] {});
            else if(k == 1) { tpp::get_all_registered_threads(); tpp::get_pending_task_count(1); tpp::get_pending_task_count(77); }
            else if(k == 2) { tpp::promise<int> q; auto f = q.get_future().then(1, [](tpp::future<int> x) { return 1; }); q.set_value(1); }
            else if(k == 3) { tpp::notify(1); tpp::notify(77); }
            else if(k == 4) { tpp::notify_for_exit(77); tpp::set_thread_config(77, {}); }
            else if(k == 5) { tt::process(); tt::get_depth(); tt::is_registered(); tt::notified_for_exit(); }
            else if(k == 6) { tpp::async(77, [] { return 1; }); tpp::dispatch(77, [] {}); }
            else { tt::process(); tt::wait_for(1us); }
        }
        else e.act(k, e.pool.get());
        busy = 0;
    };
    tpp::init_data d;
    d.log_info = [&](const std::string&) {
        if(phase == 0) in_init.add();
        if(phase == 3) in_shutdown.add();
        act();
    };
    d.log_error = [&](const std::string&) { errors.add(); act(); };
    d.set_thread_name = [&](const std::string&) { names.add(); if(phase == 2) act(); };
    d.on_thread_start = [&](const std::string&) { starts.add(); if(phase == 2) act(); };
    tpp::init(d);
    phase = 1;
    e.open();
    phase = 2;
    {
        Explore x;
        if(place == 0) { tpp::invoke(tpp::invalid_id(), [] {}); MC_CHECK((int)errors >= 1, "error logged"); }
        if(place == 1) { Raw r([&] { tt::get_id(); tt::wait(); tt::process(); tt::wait_for(1us); tt::get_depth(); }); r.join(); r.t = std::thread([] {}); }
        if(place == 2) { tpp::detail::package_simple_task([] {}); tpp::get_pending_task_count(tpp::invalid_id()); }
        if(place == 3 && k != 7) { auto y = tpp::make_thread("Y"); mc::settle(); }
        if(place == 4) // a thread unknown to the library waits for a future
        {
            tpp::promise<int> q;
            auto f = q.get_future();
            Raw r([&] { f.wait(); f.wait_for(1us); f.wait_until(std::chrono::steady_clock::now()); });
            r.join();
            r.t = std::thread([] {});
        }
        if(place == 5)
        {
            tpp::condition_variable cv;
            std::mutex m;
            Raw r([&] { std::unique_lock<std::mutex> l(m); cv.wait(l); cv.wait_for(l, 1us); });
            r.join();
            r.t = std::thread([] {});
        }
        mc::settle();
    }
    phase = 1;
    e.close(0);
    e.t.join();
    mc::settle();
    phase = 3;
    int r = tpp::shutdown();
    MC_CHECK(r == 0, "shutdown returned %d", r);
    phase = 4;
    tpp::shutdown();
}
// shutdown that times out logs as well
SCENARIO(logging_timeout, 0, 0, 0, 0)
{
    int k = mc::choose(3, "action");
    mc::Var<int> phase{0};
    mc::Count calls;
    tpp::init_data d;
    d.log_info = [&](const std::string&) {
        if(phase == 1)
        {
            calls.add();
            if(k == 0) tpp::get_all_registered_threads();
            if(k == 1) tpp::invoke(77, [] {});
            if(k == 2) tpp::notify_for_exit(77);
        }
    };
    tpp::init(d);
    Gate g, reg;
    {
        Raw r([&] { tt::register_this_thread(); reg.open(); g.pass(); tt::unregister_this_thread(); });
        reg.pass();
        phase = 1;
        int c = tpp::shutdown(1s);
        MC_CHECK(c == 1, "shutdown returned %d", c);
        phase = 2;
        g.open();
    }
}

// values and exceptions whose destructors call back
SCENARIO(value_destructors, 4, 5, 0, 0)
{
    int k = mc::choose(Env::n_actions, "action"), place = mc::choose(5, "place");
    Session s;
    Env e;
    e.open();
    auto me = tt::get_id();
    auto* raw = e.pool.get();
    auto make = [&] { return std::make_shared<Guard>([&e, k, raw] { e.act(k, raw); }); };
    {
        Explore x;
        switch(place)
        {
            case 0: { tpp::promise<GuardPtr> p; auto f = p.get_future(); p.set_value(make()); break; }
            case 1: { tpp::promise<GuardPtr> p; auto f = p.get_future(); p.set_value(make()); f.get(); break; }
            case 2: { tpp::promise<int> p; auto f = p.get_future().then(me, [h = make()](tpp::future<int>) {}); p.set_value(1); break; }
            case 3: { tpp::promise<int> p; auto f = p.get_future().then(e.dead, [h = make()](tpp::future<int>) {}); p.set_value(1); break; }
            case 4: { auto f = e.pool->schedule([h = make()] { return h; }); f.wait(); break; }
        }
        mc::settle();
    }
    e.close(1);
}

// a continuation uses the very state it belongs to
SCENARIO(same_state, 99, 99, 0, 0)
{
    int k = mc::choose(9, "action"), place = mc::choose(5, "place"), policy = mc::choose(2, "queued");
    Session s;
    auto t = tpp::make_thread("T");
    auto id = t.get_id(), me = tt::get_id();
    mc::settle();
    mc::Count done, more;
    auto p = std::make_unique<tpp::promise<int>>();
    auto sf = p->get_future().share();
    auto* raw = p.get();
    auto body = [&, sf](tpp::shared_future<int> self) {
        switch(k)
        {
            case 0: get_code([&] { return sf.get(); }); get_code([&] { return self.get(); }); break;
            case 1: sf.wait(); self.wait_for(1s); self.wait_until(std::chrono::steady_clock::now() + 1s); break;
            case 2: MC_CHECK(sf.is_ready() && self.is_ready() && sf.has_error() == self.has_error(), "state"); break;
            case 3: sf.then(me, [&](tpp::shared_future<int>) { more.add(); }).wait(); break;
            case 4: sf.then(id, [&](tpp::shared_future<int>) { more.add(); }).wait(); break;
            case 5: tpp::when_all(sf, self).wait(); break;
            case 6: tpp::when_any(sf, self).wait(); break;
            case 7: if(place < 3) MC_CHECK(get_code([&] { raw->set_value(5); return 0; }) == -5, "second set"); break;
            case 8: if(place < 3) MC_CHECK(get_code([&] { raw->get_future(); return 0; }) == -6, "second retrieval"); break;
        }
        done.add();
    };
    {
        Explore e;
        auto pol = policy ? std::launch::async : std::launch::deferred;
        if(place == 1) p->set_value(1);
        auto f = sf.then(me, pol, body);
        if(place == 0) p->set_value(1);
        if(place == 2) p->set_exception(std::make_exception_ptr(Oops{1}));
        if(place == 3) p.reset();
        if(place == 4) *p = tpp::promise<int>();
        f.get();
        mc::settle();
    }
    MC_CHECK((int)done == 1 && (int)more == (k == 3 || k == 4 ? 1 : 0), "continuations ran %d %d", (int)done, (int)more);
}
// what a dropped task does when it is destroyed concerns the very thread that drops it
SCENARIO(dying_target, 8, 9, 0, 0)
{
    int k = mc::choose(7, "action"), place = mc::choose(3, "place");
    Session s;
    mc::Count done;
    mc::Var<tid> id{0};
    auto act = [&] {
        switch(k)
        {
            case 0: MC_CHECK(tpp::invoke(id, [place] { MC_CHECK(place == 0, "ran on a gone thread"); }) == (place == 0) || place == 0, "accepted"); break;
            case 1: tpp::get_pending_task_count(id); tpp::get_pending_task_count_detailed(id); break;
            case 2: tpp::notify_for_exit(id); tpp::notify(id); break;
            case 3: tpp::get_all_registered_threads(); break;
            case 4: { auto f = tpp::async(id, [] { return 1; }); break; }
            case 5: { tpp::promise<int> q; q.set_value(1); auto f = q.get_future().then(id, [](tpp::future<int> x) { return x.get(); }); break; }
            case 6: tpp::set_thread_config(id, {4, 4}); tpp::dispatch(id, [] {}); break;
        }
        done.add();
    };
    auto g = std::make_shared<Guard>(act);
    {
        Explore x;
        if(place == 0) // destroyed after it ran on the thread
        {
            auto y = tpp::make_thread("Y");
            id = y.get_id();
            tpp::invoke(id, [h = std::move(g)] {});
            mc::settle();
        }
        else if(place == 1) // pending at exit
        {
            auto y = tpp::make_thread("Y");
            id = y.get_id();
            Gate go, started;
            tpp::invoke(id, [&] { started.open(); go.pass(); });
            started.pass();
            tpp::invoke(id, [h = std::move(g)] {});
            tpp::notify_for_exit(id);
            go.open();
            y.join();
        }
        else // pending when the thread unregisters itself
        {
            Gate reg, go;
            Raw r([&] { tt::register_this_thread(); id = tt::get_id(); reg.open(); go.pass(); tt::unregister_this_thread(); });
            reg.pass();
            tpp::invoke(id, [h = std::move(g)] {});
            go.open();
        }
        mc::settle();
    }
    MC_CHECK((int)done == 1, "destroyed %d times", (int)done);
}

// values captured by the callbacks given at initialisation are destroyed when it ends
SCENARIO(init_data_destructors, 0, 0, 0, 0)
{
    int k = mc::choose(6, "action"), which = mc::choose(4, "callback"), left = mc::choose(2, "a thread stays");
    mc::Count gone;
    Gate g, reg;
    std::unique_ptr<Raw> r;
    {
        auto guard = std::make_shared<Guard>([&] {
            switch(k)
            {
                case 0: tpp::get_all_registered_threads(); break;
                case 1: tpp::invoke(77, [] {}); break;
                case 2: tpp::notify_for_exit(77); break;
                case 3: { auto f = tpp::make_ready_future(1); f.get(); break; }
                case 4: tt::register_this_thread(); tpp::invoke(tt::get_id(), [] {}); tt::process(); tt::unregister_this_thread(); break;
                case 5: { tpp::promise<void> p; auto f = p.get_future(); p.set_value(); break; }
            }
            gone.add();
        });
        tpp::init_data d;
        auto callback = [guard](const std::string&) {};
        if(which == 0) d.log_info = callback;
        if(which == 1) d.log_error = callback;
        if(which == 2) d.set_thread_name = callback;
        if(which == 3) d.on_thread_start = callback;
        tpp::init(d);
    }
    if(left)
    {
        r = std::make_unique<Raw>([&] { tt::register_this_thread(); reg.open(); g.pass(); tt::unregister_this_thread(); });
        reg.pass();
    }
    int c = tpp::shutdown(1s);
    MC_CHECK(c == left, "shutdown returned %d", c);
    MC_CHECK((int)gone == 1, "captured value destroyed %d times", (int)gone);
    g.open();
    r.reset();
}
