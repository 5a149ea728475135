#include "common.h"
// C03: a thread blocked in the library keeps serving tasks and misses no wakeup.

static void serve(int kind, bool in_task, bool two)
{
    Session s;
    {
        Blocking b(kind);
        Probe p[2];
        Gate start;
        tpp::thread t = in_task ? tpp::make_thread("T") : tpp::thread([&] {
            tt::register_this_thread();
            start.pass();
            b.enter();
            while(!tt::notified_for_exit()) tt::wait();
            tt::unregister_this_thread();
        });
        auto id = t.get_id();
        if(in_task) tpp::invoke(id, [&] { start.pass(); b.enter(); });
        mc::settle();
        auto t0 = mc::now();
        {
            Explore e;
            start.open();
            if(two)
            {
                Raw r([&] { MC_CHECK(tpp::invoke(id, [&] { p[1].hit(); }), "send accepted"); });
                MC_CHECK(tpp::invoke(id, [&] { p[0].hit(); }), "send accepted");
            }
            else
                MC_CHECK(tpp::invoke(id, [&] { p[0].hit(); }), "send accepted");
            mc::settle();
        }
        MC_CHECK(b.entered == 1, "thread started");
        MC_CHECK(mc::now() - t0 < 1000000, "time passed");
        MC_CHECK((int)p[0].runs == 1, "task sent to a thread blocked in %s was run %d times", kind_name(kind), (int)p[0].runs);
        if(two) MC_CHECK((int)p[1].runs == 1, "second task sent to a thread blocked in %s was run %d times", kind_name(kind), (int)p[1].runs);
        MC_CHECK(b.left == 0, "%s returned before its event", kind_name(kind));
        p[0].expect("task", 1, id);
        // later tasks while it stays blocked
        MC_CHECK(tpp::invoke(id, [&] { p[0].hit(); }), "send accepted");
        mc::settle();
        p[0].expect("task", 2, id);
        MC_CHECK(mc::now() - t0 < 1000000, "time passed");
        b.release(id);
        mc::settle();
        if(Blocking::is_sleep(kind))
        {
            tt::sleep_for(2 * Blocking::nap);
            mc::settle();
        }
        MC_CHECK(b.left == 1, "%s did not return after its event", kind_name(kind));
    }
}
SCENARIO(task_during_simple_calls, 8, 9, 0, 1)
{
    int k = mc::choose(Blocking::simple_kinds, "call");
    serve(k, mc::choose(2, "in task"), false);
}
SCENARIO(task_during_mutex_and_pool, 99, 99, 0, 0)
{
    int k = Blocking::mutex_lock + mc::choose(3, "call");
    serve(k, mc::choose(2, "in task"), false);
}
SCENARIO(two_tasks_during_calls, 99, 99, 0, 0)
{
    serve(mc::choose(Blocking::mutex_lock + 1, "call"), false, true);
}

// the release comes from a task sent to the blocked thread itself, or from another thread at any moment
static void released_any_time(int kind)
{
    Session s;
    {
        Blocking b(kind);
        Gate start;
        tpp::thread t([&] {
            tt::register_this_thread();
            start.pass();
            b.enter();
            tt::unregister_this_thread();
        });
        auto id = t.get_id();
        mc::settle();
        auto t0 = mc::now();
        {
            Explore e;
            start.open();
            b.release(id);
            mc::settle();
        }
        MC_CHECK(b.left == 1, "%s slept through its event", kind_name(kind));
        MC_CHECK(mc::now() - t0 < 1000000, "%s returned only by timeout", kind_name(kind));
    }
}
SCENARIO(release_at_any_moment, 99, 99, 0, 0)
{
    int k = mc::choose(Blocking::mutex_lock + 1, "call");
    if(Blocking::is_sleep(k)) return;
    released_any_time(k);
}
SCENARIO(release_pool_at_any_moment, 99, 99, 0, 0) { released_any_time(Blocking::pool_wait + mc::choose(2, "call")); }

// released from a task that the blocked thread serves during the call
SCENARIO(release_from_served_task, 99, 99, 0, 0)
{
    int k = mc::choose(Blocking::simple_kinds, "call");
    if(Blocking::is_sleep(k)) return;
    Session s;
    Blocking b(k);
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    mc::settle();
    auto t0 = mc::now();
    {
        Explore e;
        tpp::invoke(id, [&] { b.enter(); });
        tpp::invoke(id, [&] { b.release(id); });
        mc::settle();
    }
    MC_CHECK(b.left == 1, "%s was not released by a task served during the call", kind_name(k));
    MC_CHECK(mc::now() - t0 < 1000000, "%s returned only by timeout", kind_name(k));
}

// a single thread wait runs the task it was sent before it returns
SCENARIO(wait_runs_its_task, 99, 99, 0, 0)
{
    int k = mc::choose(3, "call");
    int extra = mc::choose(2, "notified too");
    Session s;
    Blocking b(k);
    Gate start;
    Probe p;
    mc::Var<int> ran{-1};
    tpp::thread t([&] {
        tt::register_this_thread();
        start.pass();
        b.call();
        if(!extra) MC_CHECK((int)p.runs == 1, "a thread wait ended without having run the task");
        if((int)p.runs == 0) b.call();
        ran = (int)p.runs;
        tt::unregister_this_thread();
    });
    auto id = t.get_id();
    mc::settle();
    auto t0 = mc::now();
    {
        Explore e;
        start.open();
        std::unique_ptr<Raw> r;
        if(extra) r = std::make_unique<Raw>([&] { tpp::notify(id); });
        MC_CHECK(tpp::invoke(id, [&] { p.hit(); }), "send accepted");
        r.reset();
        mc::settle();
    }
    MC_CHECK(ran == 1, "task run %d times by the thread waits that returned", ran.get());
    MC_CHECK(mc::now() - t0 < 1000000, "returned only by timeout");
    t.join();
}

// notify wakes a thread wait, whenever it comes
SCENARIO(notify_before_or_during, 99, 99, 0, 1)
{
    int k = mc::choose(3, "call");
    Session s;
    Blocking b(k);
    Gate start;
    tpp::thread t([&] {
        tt::register_this_thread();
        start.pass();
        b.call();
        b.left = 1;
        tt::unregister_this_thread();
    });
    auto id = t.get_id();
    mc::settle();
    auto t0 = mc::now();
    {
        Explore e;
        start.open();
        tpp::notify(id);
        mc::settle();
    }
    MC_CHECK(b.left == 1, "%s slept through a notify", kind_name(k));
    MC_CHECK(mc::now() - t0 < 1000000, "%s returned only by timeout", kind_name(k));
}

// a task sent to a thread that is between two waits, and while it runs another task
SCENARIO(worker_loop, 99, 99, 0, 1)
{
    Session s;
    mc::Count runs;
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    mc::settle();
    {
        Explore e;
        tpp::invoke(id, [&] { runs.add(); });
        tpp::invoke(id, [&] { runs.add(); });
        mc::settle();
    }
    MC_CHECK((int)runs == 2, "worker served %d of 2 tasks", (int)runs);
}

// several levels of blocking calls inside tasks served by blocking calls; served at the innermost one
static void deep(int kind, int depth, bool before, bool mixed)
{
    Session s;
    {
        std::vector<std::unique_ptr<Blocking>> b;
        for(int i = 0; i < depth; ++i) b.push_back(std::make_unique<Blocking>(mixed && i % 2 == 0 ? (int)Blocking::fut_wait : kind));
        Probe p[3];
        auto t = tpp::make_thread("T");
        auto id = t.get_id();
        mc::settle();
        auto t0 = mc::now();
        std::function<void(int)> level = [&](int i) {
            if(i + 1 < depth) MC_CHECK(tpp::invoke(id, [&, i] { level(i + 1); }), "accepted");
            else if(before) { MC_CHECK(tpp::invoke(id, [&] { p[0].hit(); }), "accepted"); MC_CHECK(tpp::invoke(id, [&] { p[1].hit(); }), "accepted"); }
            b[i]->enter();
        };
        {
            Explore e;
            MC_CHECK(tpp::invoke(id, [&] { level(0); }), "accepted");
            MC_CHECK(tpp::invoke(id, [&] { p[2].hit(); }), "accepted");
            mc::settle();
        }
        for(auto& x : b) MC_CHECK(x->entered == 1 && x->left == 0, "%s at one of %d levels: entered %d left %d", kind_name(x->kind), depth, x->entered.get(), x->left.get());
        for(int i = before ? 0 : 2; i < 3; ++i) p[i].expect("task sent to a deeply nested blocked thread", 1, id);
        MC_CHECK(tpp::invoke(id, [&] { p[2].hit(); }), "accepted");
        mc::settle();
        p[2].expect("task sent to a deeply nested blocked thread", 2, id);
        MC_CHECK(mc::now() - t0 < 1000000, "time passed");
        for(int i = depth; i-- > 0;)
        {
            b[i]->release(id);
            mc::settle();
            if(!Blocking::is_sleep(kind)) MC_CHECK(b[i]->left == 1, "%s at level %d of %d did not return after its event", kind_name(b[i]->kind), i, depth);
        }
        tt::sleep_for(2 * Blocking::nap);
        mc::settle();
        for(auto& x : b) MC_CHECK(x->left == 1, "returned at the end");
    }
}
SCENARIO(deep_simple, 3, 4, 0, 0)
{
    int k = mc::choose(Blocking::mutex_lock + 1, "call"), depth = 2 + mc::choose(4, "depth"), before = mc::choose(2, "before"), mixed = mc::choose(2, "mixed");
    deep(k, depth, before, mixed);
}
SCENARIO(deep_pool, 99, 99, 0, 0)
{
    int k = Blocking::pool_wait + mc::choose(2, "call"), depth = 2 + mc::choose(2, "depth");
    deep(k, depth, mc::choose(2, "before"), true);
}
SCENARIO(deep_interleaved, 99, 99, 0, 0)
{
    int k = mc::choose(Blocking::mutex_lock + 1, "call"), depth = 3;
    deep(k, depth, true, false);
}

// whatever happened to the thread before, wait() blocks until something is sent
SCENARIO(wait_stays_blocked, 8, 9, 0, 1)
{
    int n = 2, steps[3];
    for(int i = 0; i < n; ++i) steps[i] = mc::choose(9, "step");
    Session s;
    mc::Var<int> state{0};
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    mc::settle();
    tpp::promise<void> never;
    auto nf = never.get_future().share();
    tpp::invoke(id, [&] {
        for(int i = 0; i < n; ++i)
            switch(steps[i])
            {
                case 0: tpp::invoke(id, [] {}); break;
                case 1: tpp::notify(id); break;
                case 2: tpp::invoke(id, [&] { tpp::invoke(id, [] {}); tt::process(); }); break;
                case 3: tt::process(); break;
                case 4: tt::wait_for(1us); break;
                case 5: tpp::shared_future<void>(nf).wait_for(1us); break;
                case 6: { Raw r([&] { tpp::invoke(id, [] {}); tpp::invoke(id, [] {}); }); break; }
                case 7: tpp::invoke(id, [&] { tpp::invoke(id, [] {}); tt::wait(); }); tt::wait(); break;
                case 8: tpp::set_thread_config(id, {1, 0}); break;
            }
        tt::process();
        state = 1;
        tt::wait();
        state = 2;
    });
    std::this_thread::sleep_for(1ms);
    {
        Explore e;
        mc::settle();
        MC_CHECK(state == 1, "wait returned although nothing was sent");
        if(mc::choose(2, "task")) tpp::invoke(id, [] {});
        else tpp::notify(id);
        mc::settle();
        MC_CHECK(state == 2, "wait did not return");
    }
}
