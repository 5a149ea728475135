#include "common.h"
// C05: a task that cannot run is never run and is destroyed exactly once.

static void gone(Life& l, const char* what)
{
    MC_CHECK((int)l.live == 0, "%s: %d instances of the callable are still alive", what, (int)l.live);
}

SCENARIO(dead_targets, 0, 0, 0, 0)
{
    Session s;
    Life l;
    mc::Count runs;
    tid target = 0;
    int kind = mc::choose(4, "target");
    if(kind == 1) target = 9999;
    if(kind == 2)
    {
        auto t = tpp::make_thread("T");
        target = t.get_id();
        t.join();
    }
    if(kind == 3)
    {
        Raw r([&] {
            tt::register_this_thread("raw");
            target = tt::get_id();
            tt::unregister_this_thread();
        });
    }
    int entry = mc::choose(9, "entry");
    {
        Tracked k(l), a(l);
        auto fn = [k = std::move(k), &runs](const Tracked&) { runs.add(); };
        bool ok = false;
        if(target == tpp::invalid_id() && entry >= 4) return;
        tpp::future<void> f;
        switch(entry)
        {
            case 0: ok = tpp::invoke(target, fn, a); break;
            case 1: ok = tpp::dispatch(target, fn, a); break;
            case 2: ok = tpp::invoke(target, std::move(fn), std::move(a)); break;
            case 3: ok = tpp::set_thread_config(target, {}); break;
            case 4: f = tpp::async(target, fn, a); break;
            case 5: f = tpp::async(target, std::launch::async, std::move(fn), std::move(a)); break;
            case 6: f = tpp::async(target, std::launch::deferred, fn, a); break;
            case 7: f = tpp::make_ready_future().then(target, [fn](tpp::future<void>) { Life x; Tracked y(x); fn(y); }); break;
            case 8: f = tpp::make_ready_future().share().then(target, std::launch::async, [fn](tpp::shared_future<void>) { Life x; Tracked y(x); fn(y); }); break;
        }
        MC_CHECK(!ok, "send to a dead thread reported success");
        if(entry >= 4)
        {
            MC_CHECK(f.valid() && f.is_ready(), "future of a rejected task is not ready");
            MC_CHECK(get_code([&] { f.get(); return 1; }) == -2, "rejected task is not reported as broken promise");
        }
        if(kind >= 2)
        {
            tpp::notify(target);
            tpp::notify_for_exit(target);
        }
    }
    tt::process();
    MC_CHECK((int)runs == 0, "rejected task was run");
    gone(l, "rejected task");
}

// a send races with the end of the target; entry point and way of ending chosen
static void race(int entry, int end)
{
    Session s;
    Life l;
    mc::Count runs;
    mc::Var<int> ok{-1};
    mc::Var<tid> where{0};
    tid id;
    {
        tpp::thread t = end == 2 ? tpp::thread([] {
            tt::register_this_thread();
            tt::wait_for(1ms);
            tt::unregister_this_thread();
        }) : tpp::make_thread("T");
        id = t.get_id();
        mc::settle();
        Explore e;
        {
            Raw r([&] {
                Tracked a(l);
                auto fn = [&runs, &where, a = std::move(a)] { runs.add(); where = tt::get_id(); };
                switch(entry)
                {
                    case 0: ok = tpp::invoke(id, std::move(fn)); break;
                    case 1: ok = tpp::dispatch(id, fn); break;
                    case 2:
                    {
                        auto f = tpp::async(id, std::move(fn));
                        f = {};
                        break;
                    }
                }
            });
            if(end == 0) t.join();
            if(end == 1) tpp::notify_for_exit(id);
        }
        if(t.joinable()) t.join();
    }
    MC_CHECK((int)runs <= 1, "task ran %d times", (int)runs);
    if(ok == 0) MC_CHECK((int)runs == 0, "refused task was run");
    if((int)runs) MC_CHECK(where == id, "task ran on another thread");
    gone(l, "task sent while its target ended");
    mc_observe("%d%d", (int)ok, (int)runs);
}
SCENARIO(send_against_end, 99, 99, 1, 0) { race(mc::choose(3, "entry"), mc::choose(3, "end")); }

// tasks queued behind a running one when the thread is told to exit
SCENARIO(queued_behind_running, 99, 99, 0, 0)
{
    Session s;
    Life l;
    mc::Count runs;
    {
        auto t = tpp::make_thread("T");
        auto id = t.get_id();
        mc::settle();
        Gate g, started;
        tpp::invoke(id, [&] { started.open(); g.pass(); });
        started.pass();
        for(int i = 0; i < 2; ++i)
        {
            Tracked a(l);
            MC_CHECK(tpp::invoke(id, [&runs, a = std::move(a)] { runs.add(); }), "accepted");
        }
        bool first = mc::choose(2, "exit first");
        Explore e;
        if(first) { tpp::notify_for_exit(id); g.open(); }
        else { g.open(); tpp::notify_for_exit(id); }
        t.join();
        if(first) MC_CHECK((int)runs == 0, "a task was run after the thread was told to exit");
    }
    MC_CHECK((int)runs <= 2, "task ran twice");
    gone(l, "tasks queued at exit");
}

// a thread unregisters with tasks of its own queue pending (batch partly processed or not)
SCENARIO(unregister_with_pending, 0, 0, 0, 0)
{
    Session s;
    Life l;
    mc::Count runs;
    int total = mc::choose(4, "tasks"), served = mc::choose(4, "served"), late = mc::choose(3, "late sends");
    {
        Raw r([&] {
            tt::register_this_thread("raw");
            auto me = tt::get_id();
            for(int i = 0; i < total; ++i)
            {
                Tracked a(l);
                tpp::invoke(me, [&runs, a = std::move(a)] { runs.add(); });
            }
            for(int i = 0; i < served && i < total; ++i) tt::wait();
            for(int i = 0; i < late; ++i)
            {
                Tracked a(l);
                tpp::invoke(me, [&runs, a = std::move(a)] { runs.add(); });
            }
            MC_CHECK((int)runs == std::min(total, served), "served");
            tt::unregister_this_thread();
            gone(l, "tasks pending at unregistration");
            MC_CHECK(!tpp::invoke(me, [&] { runs.add(); }), "unregistered thread accepted a task");
        });
    }
    MC_CHECK((int)runs == std::min(total, served), "pending task was run after unregistration");
    gone(l, "tasks");
}

// a task is destroyed as soon as it was run, before the next one starts
SCENARIO(destroyed_after_run, 0, 0, 0, 0)
{
    Session s;
    Life l;
    auto me = tt::get_id();
    int how = mc::choose(3, "serve");
    for(int i = 0; i < 3; ++i)
    {
        Tracked a(l);
        tpp::invoke(me, [&l, i, a = std::move(a)] { MC_CHECK((int)l.live == 3 - i, "%d alive when task %d runs", (int)l.live, i); });
    }
    if(how == 0) tt::process();
    else for(int i = 0; i < 3; ++i) { if(how == 1) tt::wait(); else tt::wait_for(1ms); }
    gone(l, "executed tasks");
}

// two senders against the end, and a task that destroys things while it is dropped
SCENARIO(two_senders_against_end, 8, 9, 0, 0)
{
    Session s;
    Life l;
    mc::Count runs, accepted;
    {
        auto t = tpp::make_thread("T");
        auto id = t.get_id();
        mc::settle();
        Explore e;
        auto send = [&] {
            Tracked a(l);
            if(tpp::invoke(id, [&runs, a = std::move(a)] { runs.add(); })) accepted.add();
        };
        Raw r([&] { send(); });
        Raw q([&] { send(); });
        t.join();
    }
    MC_CHECK((int)runs <= (int)accepted, "%d runs of %d accepted", (int)runs, (int)accepted);
    gone(l, "tasks");
}
