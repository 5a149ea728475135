#include "common.h"
// C08: shutdown waits for all threads and reports exactly those left.

// obedient workers, in every state of idleness and business; shutdown takes no time
SCENARIO(obedient_workers, 8, 9, 0, 1)
{
    int n = 1 + mc::choose(2, "workers");
    bool busy = mc::choose(2, "busy");
    tpp::init();
    std::vector<std::thread> v;
    mc::Var<int> gone{0};
    for(int i = 0; i < n; ++i)
        v.emplace_back([&] {
            tt::register_this_thread();
            while(!tt::notified_for_exit()) tt::wait();
            gone++;
            tt::unregister_this_thread();
        });
    mc::settle();
    MC_CHECK((int)tpp::get_all_registered_threads().size() == n + 1, "all registered");
    if(busy) for(auto id : tpp::get_all_registered_threads()) if(id != tpp::main_thread::get_id()) tpp::invoke(id, [] { tt::wait_for(1s); });
    auto t0 = mc::now();
    int r;
    {
        Explore e;
        r = tpp::shutdown();
        MC_CHECK(gone == n, "shutdown returned 0 before the threads were done");
    }
    MC_CHECK(r == 0, "shutdown returned %d", r);
    MC_CHECK(mc::now() - t0 < 100000000, "shutdown slept although all threads exited");
    MC_CHECK(tpp::get_all_registered_threads().empty(), "no thread registered");
    for(auto& t : v) t.join();
}

// blocked in any call: released by shutdown
SCENARIO(blocked_workers, 99, 99, 0, 0)
{
    tpp::init();
    int k = mc::choose(Blocking::simple_kinds, "call");
    Blocking b(k);
    Gate start;
    std::thread t([&] {
        tt::register_this_thread();
        start.pass();
        b.call();
        tt::unregister_this_thread();
    });
    mc::settle();
    auto t0 = mc::now();
    int r;
    {
        Explore e;
        start.open();
        r = tpp::shutdown();
    }
    MC_CHECK(r == 0, "shutdown returned %d with a thread blocked in %s", r, kind_name(k));
    MC_CHECK(mc::now() - t0 < 100000000, "shutdown slept");
    t.join();
}

// stubborn threads are counted after exactly the given time; then the library is usable again
SCENARIO(stubborn_workers, 99, 99, 0, 0)
{
    int stubborn = mc::choose(4, "stubborn"), good = mc::choose(2, "obedient"), secs = mc::choose(3, "seconds");
    tpp::init();
    std::vector<std::thread> v;
    Gate g;
    mc::Var<int> told{0};
    for(int i = 0; i < stubborn; ++i)
        v.emplace_back([&] {
            tt::register_this_thread("stubborn");
            g.pass();
            told = told + (tt::notified_for_exit() ? 1 : 0);
            tt::unregister_this_thread();
        });
    for(int i = 0; i < good; ++i)
        v.emplace_back([&] {
            tt::register_this_thread();
            while(!tt::notified_for_exit()) tt::wait();
            tt::unregister_this_thread();
        });
    mc::settle();
    auto t0 = mc::now();
    int r;
    {
        Explore e;
        r = secs == 2 ? tpp::shutdown() : tpp::shutdown(std::chrono::seconds(secs));
    }
    uint64_t dt = mc::now() - t0, want = secs == 2 ? 5000000000ull : secs * 1000000000ull;
    if(secs != 0 || good == 0)
        MC_CHECK(r == stubborn, "shutdown returned %d with %d threads left", r, stubborn);
    else
        MC_CHECK(r >= stubborn && r <= stubborn + good, "shutdown returned %d with %d threads left", r, stubborn);
    if(stubborn == 0 && r == 0) MC_CHECK(dt < 100000000, "waited for nobody");
    else MC_CHECK(dt >= want && dt < want + 100000000, "waited %llu ns instead of %llu", (unsigned long long)dt, (unsigned long long)want);
    if(r) MC_CHECK((int)tpp::get_all_registered_threads().size() == stubborn || secs == 0, "registered set");
    g.open();
    for(auto& t : v) t.join();
    MC_CHECK(told == stubborn, "stubborn threads were not told to exit");
    MC_CHECK(tpp::get_all_registered_threads().empty(), "none left");
    // initialise again
    tpp::init();
    MC_CHECK(tt::is_registered() && !tt::notified_for_exit(), "initialised again");
    {
        mc::Count ran;
        auto t = tpp::make_thread("again");
        tpp::invoke(t.get_id(), [&] { ran.add(); });
        mc::settle();
        MC_CHECK((int)ran == 1, "usable again");
    }
    MC_CHECK(tpp::shutdown() == 0, "second shutdown");
}

// late leavers: the thread unregisters while shutdown is waiting or about to wait
SCENARIO(late_leaver, 99, 99, 1, 1)
{
    int n = 1 + mc::choose(2, "threads");
    tpp::init();
    Gate g;
    std::vector<std::thread> v;
    mc::Var<int> out{0};
    for(int i = 0; i < n; ++i)
        v.emplace_back([&] {
            tt::register_this_thread();
            g.pass();
            out++;
            tt::unregister_this_thread();
        });
    mc::settle();
    auto t0 = mc::now();
    int r;
    {
        Explore e;
        Raw q([&] { g.open(); });
        r = tpp::shutdown(std::chrono::seconds(2));
        auto dt = mc::now() - t0;
        if(r == 0) MC_CHECK(out == n, "returned 0 before the threads were gone");
        else MC_CHECK(dt >= 2000000000ull, "gave up after %llu ns", (unsigned long long)dt);
        MC_CHECK(r >= 0 && r <= n, "returned %d", r);
        if(dt < 1000000) MC_CHECK(r == 0, "time not over");
        else MC_CHECK(r != 0 || dt < 2100000000ull, "too late");
        mc_observe("%d", r);
    }
    for(auto& t : v) t.join();
}
// the same without early expiry: must end without time passing
SCENARIO(late_leaver_in_time, 99, 99, 0, 1)
{
    tpp::init();
    Gate g;
    std::thread t([&] {
        tt::register_this_thread();
        g.pass();
        tt::unregister_this_thread();
    });
    mc::settle();
    auto t0 = mc::now();
    {
        Explore e;
        Raw q([&] { g.open(); });
        int r = tpp::shutdown(std::chrono::seconds(2));
        MC_CHECK(r == 0, "returned %d", r);
        MC_CHECK(mc::now() - t0 < 100000000, "slept through the last unregistration");
    }
    t.join();
}

// nesting: only the matching shutdown counts
SCENARIO(nesting, 0, 0, 0, 0)
{
    int level = 0;
    std::unique_ptr<std::thread> w;
    mc::Var<int> told{0};
    mc::Var<tid> wid{0};
    for(int i = 0; i < (mc_thorough() ? 8 : 7); ++i)
    {
        switch(mc::choose(3, "op"))
        {
            case 0:
            {
                tpp::init();
                ++level;
                MC_CHECK(tt::is_registered(), "main registered by init");
                MC_CHECK(tpp::main_thread::get_id() == tt::get_id(), "main id");
                break;
            }
            case 1:
            {
                int r = tpp::shutdown();
                if(level == 1)
                {
                    MC_CHECK(r == 0, "matching shutdown returned %d", r);
                    MC_CHECK(tpp::get_all_registered_threads().empty(), "somebody left");
                    if(w)
                    {
                        MC_CHECK(told == 1, "worker not told");
                        w->join();
                        w.reset();
                        told = 0;
                    }
                }
                else
                {
                    MC_CHECK(r == -1, "inner or unmatched shutdown returned %d", r);
                    if(level > 1) MC_CHECK(tt::is_registered(), "inner shutdown unregistered the caller");
                    mc::settle();
                    MC_CHECK(told == 0, "inner or unmatched shutdown told a thread to exit");
                }
                if(level) --level;
                break;
            }
            case 2:
                if(level && !w)
                {
                    w = std::make_unique<std::thread>([&] {
                        tt::register_this_thread("w");
                        wid = tt::get_id();
                        while(!tt::notified_for_exit()) tt::wait();
                        told = 1;
                        tt::unregister_this_thread();
                    });
                    mc::settle();
                    MC_CHECK(listed(wid), "worker registered");
                }
                break;
        }
        if(w) MC_CHECK(told == 0 && listed(wid), "worker ended without being asked");
    }
    while(level--) tpp::shutdown();
    if(w) w->join();
}

// workers owned by thread objects that outlive shutdown
SCENARIO(objects_outlive_shutdown, 99, 99, 0, 0)
{
    tpp::init();
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    mc::Count runs;
    if(mc::choose(2, "settled")) mc::settle();
    auto t0 = mc::now();
    {
        Explore e;
        tpp::invoke(id, [&] { runs.add(); });
        MC_CHECK(tpp::shutdown() == 0, "shutdown");
        MC_CHECK(mc::now() - t0 < 100000000, "slept");
        MC_CHECK(!listed(id) && !tpp::invoke(id, [&] { runs.add(); }), "thread gone");
    }
    t.join();
    MC_CHECK((int)runs <= 1, "ran twice");
}

// shutdown by another thread than the one that called init, which is in some blocking call
SCENARIO(other_thread, 4, 5, 0, 0)
{
    int k = mc::choose(Blocking::simple_kinds, "call"), reg = mc::choose(2, "caller registered"), worker = mc::choose(2, "worker");
    tpp::init();
    {
        Blocking b(k);
        mc::Var<int> r{-7}, told{0};
        auto t0 = mc::now();
        std::unique_ptr<std::thread> w;
        if(worker)
        {
            w = std::make_unique<std::thread>([&] {
                tt::register_this_thread();
                while(!tt::notified_for_exit()) tt::wait();
                told = 1;
                tt::unregister_this_thread();
            });
            mc::settle();
        }
        {
            Explore e;
            Raw q([&] {
                if(reg) tt::register_this_thread();
                r = tpp::shutdown(2s);
                MC_CHECK(r != 0 || !tt::is_registered(), "the caller is still registered");
            });
            b.call();
            MC_CHECK(tt::notified_for_exit(), "blocking call returned without being told to exit");
            tt::unregister_this_thread();
        }
        MC_CHECK(r == 0, "shutdown returned %d", r.get());
        MC_CHECK(told == worker, "worker told");
        MC_CHECK(mc::now() - t0 < 100000000, "shutdown slept");
        MC_CHECK(tpp::get_all_registered_threads().empty(), "no thread registered");
        if(w) w->join();
    }
    tpp::init();
    MC_CHECK(!tt::notified_for_exit() && tpp::main_thread::get_id() == tt::get_id(), "initialised again");
    MC_CHECK(tpp::shutdown() == 0, "second shutdown");
}
// init and shutdown by a thread that is not the first one of the program; the callers may differ
SCENARIO(init_elsewhere, 8, 9, 0, 0)
{
    int same = mc::choose(2, "same thread"), rounds = 1 + mc::choose(2, "rounds"), inner = mc::choose(2, "inner");
    for(int i = 0; i < rounds; ++i)
    {
        Explore e;
        mc::Var<int> r{-7};
        auto stop = [&] {
            if(inner) MC_CHECK(tpp::shutdown() == -1, "inner shutdown");
            r = tpp::shutdown(1s);
        };
        Gate g, up;
        Raw a([&] {
            tpp::init();
            MC_CHECK(tt::is_registered() && tpp::main_thread::get_id() == tt::get_id(), "initialising thread is the main one");
            if(inner) tpp::init();
            up.open();
            if(same) stop();
            else
            {
                while(!tt::notified_for_exit()) tt::wait();
                tt::unregister_this_thread();
            }
        });
        if(!same) { up.pass(); stop(); }
        a.join();
        a.t = std::thread([] {});
        MC_CHECK(r == 0, "shutdown returned %d", r.get());
        MC_CHECK(tpp::get_all_registered_threads().empty(), "somebody left");
    }
    MC_CHECK(tpp::shutdown() == -1, "unmatched shutdown");
}

// detached threads are waited for like the others, whatever they are doing
SCENARIO(detached, 3, 4, 0, 0)
{
    tpp::init();
    int kind = mc::choose(4, "kind");
    bool settled = mc::choose(2, "settled");
    bool task = mc::choose(2, "task");
    mc::Count runs, gone;
    Life l;
    int r;
    {
        Explore e;
        tid id = 0;
        if(kind == 0)
        {
            auto t = tpp::make_thread();
            t.detach();
            id = t.get_id();
        }
        if(kind == 1)
        {
            auto t = tpp::make_shared_thread("D");
            t->detach();
            id = t->get_id();
        }
        if(kind >= 2)
        {
            auto body = [&] {
                tt::register_this_thread();
                while(!tt::notified_for_exit()) tt::wait();
                gone.add();
                tt::unregister_this_thread();
            };
            if(kind == 2)
            {
                std::thread t(body);
                id = tpp::register_thread(t.get_id());
                t.detach();
            }
            else
            {
                tpp::thread t(body);
                t.detach();
                id = t.get_id();
            }
        }
        MC_CHECK(id != tpp::invalid_id() && listed(id), "detached thread is not registered");
        if(settled) mc::settle();
        bool ok = false;
        if(task) ok = tpp::invoke(id, [&, k = Tracked(l)] { runs.add(); MC_CHECK(tt::get_id() == id, "task ran elsewhere"); });
        MC_CHECK(ok == task, "task for a detached thread refused");
        if(settled && task)
        {
            mc::settle();
            MC_CHECK((int)runs == 1, "task of a detached thread ran %d times", (int)runs);
        }
        auto t0 = mc::now();
        r = tpp::shutdown();
        MC_CHECK(mc::now() - t0 < 100000000, "shutdown slept although all threads exited");
        MC_CHECK(!listed(id), "still registered");
    }
    MC_CHECK(r == 0, "shutdown returned %d", r);
    MC_CHECK((int)gone == (kind >= 2), "shutdown returned before the detached thread was done");
    mc::settle();
    MC_CHECK((int)runs <= (int)task && (int)l.live == 0, "task ran %d times, %d instances left", (int)runs, (int)l.live);
}
