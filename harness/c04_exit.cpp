#include "common.h"
// C04: an exit notification releases every blocking call and lets the thread join.

static bool releases(int k) { return k != Blocking::mutex_lock; }

// every call x every moment of notify_for_exit; then again from a call made after the notification
static void exit_during(int kind, int how)
{
    Session s;
    Blocking b(kind);
    mc::Var<int> seen{0}, again{0};
    Gate start;
    {
        auto t = std::make_unique<tpp::thread>([&] {
            tt::register_this_thread();
            MC_CHECK(!tt::notified_for_exit(), "told to exit although nobody asked");
            start.pass();
            b.call();
            b.left = 1;
            seen = tt::notified_for_exit();
            if(kind != Blocking::fut_get && kind != Blocking::fut_void_get)
            {
                b.call();
                again = 1;
            }
            tt::unregister_this_thread();
        });
        auto id = t->get_id();
        mc::settle();
        auto t0 = mc::now();
        {
            Explore e;
            start.open();
            switch(how)
            {
                case 0: tpp::notify_for_exit(id); mc::settle(); break;
                case 1: t->join(); break;
                case 2: t.reset(); break;
                case 3: *t = tpp::thread(); break;
            }
        }
        MC_CHECK(b.left == 1, "%s did not return after the exit notification", kind_name(kind));
        MC_CHECK(seen == 1, "notified_for_exit false after the notification");
        MC_CHECK(mc::now() - t0 < 1000000, "%s returned only by timeout", kind_name(kind));
        if(kind == Blocking::fut_get || kind == Blocking::fut_void_get || kind == Blocking::shared_get || kind == Blocking::shared_void_get)
            MC_CHECK(b.code < 0, "%s delivered a result that was never set", kind_name(kind));
        else
            MC_CHECK(again == 1, "a later %s did not return", kind_name(kind));
        if(kind == Blocking::fut_wait_for || kind == Blocking::fut_wait_until || kind == Blocking::shared_wait_for)
            MC_CHECK(b.code != (int)std::future_status::ready && b.code != (int)std::future_status::timeout, "%s reported %s", kind_name(kind), b.code ? "timeout before its time" : "ready without a result");
        if(kind == Blocking::wait_for || kind == Blocking::wait_until || kind == Blocking::cv_wait_for || kind == Blocking::cv_wait_until)
            MC_CHECK(b.code != (int)std::cv_status::timeout, "%s reported timeout before its time", kind_name(kind));
        if(how != 0) MC_CHECK(!listed(id), "joined thread still listed");
    }
    b.release(0);
}
SCENARIO(exit_during_simple_calls, 99, 99, 0, 1)
{
    int k = mc::choose(Blocking::simple_kinds, "call");
    exit_during(k, mc::choose(4, "how"));
}
SCENARIO(exit_during_pool_waits, 99, 99, 0, 0)
{
    exit_during(Blocking::pool_wait + mc::choose(2, "call"), mc::choose(2, "how"));
}

// exit at any moment of the life of a prepared worker, including before its body has started, with a task sent before
SCENARIO(exit_during_startup, 99, 99, 0, 1)
{
    Session s;
    int how = mc::choose(3, "how");
    auto t0 = mc::now();
    mc::Count runs;
    tid id;
    {
        Explore e;
        auto t = tpp::make_shared_thread("T");
        id = t->get_id();
        if(how == 1) tpp::notify_for_exit(id);
        if(how == 2) tpp::invoke(id, [&] { runs.add(); });
        t.reset();
    }
    MC_CHECK(!listed(id), "thread gone");
    MC_CHECK((int)runs <= 1, "task ran %d times", (int)runs);
    MC_CHECK(mc::now() - t0 < 1000000, "time passed");
}

// a running task is allowed to finish; nested calls inside it are released
SCENARIO(exit_during_task, 99, 99, 0, 0)
{
    int k = mc::choose(Blocking::simple_kinds, "call");
    Session s;
    Blocking b(k);
    mc::Var<int> finished{0}, flagged{0};
    tid id;
    auto t0 = mc::now();
    {
        auto t = tpp::make_thread("T");
        id = t.get_id();
        mc::settle();
        Gate started;
        Explore e;
        tpp::invoke(id, [&] {
            started.open();
            b.call();
            flagged = tt::notified_for_exit();
            finished = 1;
        });
        started.pass();
        t.join();
    }
    MC_CHECK(finished == 1, "running task did not finish before the join returned");
    MC_CHECK(flagged == 1, "task not told about the exit");
    MC_CHECK(mc::now() - t0 < 1000000, "%s returned only by timeout", kind_name(k));
    b.release(0);
}

// a task running plain user code finishes before join returns; other threads are not told
SCENARIO(exit_waits_for_running_task, 99, 99, 0, 0)
{
    Session s;
    mc::Var<int> finished{0};
    auto other = tpp::make_thread("O");
    auto oid = other.get_id();
    auto t = tpp::make_thread("T");
    mc::settle();
    mc::Var<int> told{-1};
    {
        Gate started, go;
        Explore e;
        tpp::invoke(t.get_id(), [&] {
            started.open();
            go.pass();
            finished = 1;
        });
        started.pass();
        Raw r([&] { go.open(); });
        t.join();
        MC_CHECK(finished == 1, "join returned while a task was running");
        tpp::invoke(oid, [&] { told = tt::notified_for_exit(); });
        mc::settle();
    }
    MC_CHECK(told == 0, "thread that nobody asked was told to exit");
    MC_CHECK(!tt::notified_for_exit(), "main thread was told to exit");
    MC_CHECK(listed(oid), "other thread gone");
}

// a running task that looks out for the exit by itself, serving nothing, hears about it whatever else is queued
SCENARIO(running_task_hears, 99, 99, 0, 0)
{
    int queued = mc::choose(3, "queued"), how = mc::choose(4, "how"), depth = 1 + mc::choose(2, "depth");
    Session s;
    mc::Var<int> heard{0};
    mc::Count ran;
    auto t = std::make_unique<tpp::thread>(tpp::make_thread("T"));
    auto id = t->get_id();
    mc::settle();
    Gate started;
    auto poll = [&] {
        started.open();
        while(!tt::notified_for_exit()) mc::yield();
        heard = 1;
    };
    if(depth == 1) tpp::invoke(id, poll);
    else tpp::invoke(id, [&] { tpp::invoke(id, poll); tt::process(); });
    started.pass();
    for(int i = 0; i < queued; ++i) tpp::invoke(id, [&] { ran.add(); });
    {
        Explore e;
        switch(how)
        {
            case 0: tpp::notify_for_exit(id); mc::settle(); break;
            case 1: t->join(); break;
            case 2: t.reset(); break;
            case 3: tpp::shutdown(); tpp::init(); break;
        }
    }
    MC_CHECK(heard == 1, "running task not told about the exit");
    if(t && t->joinable()) t->join();
    t.reset();
    MC_CHECK((int)ran <= queued, "%d tasks ran", (int)ran);
}

// two requests at once, one from the thread itself
SCENARIO(exit_twice, 8, 9, 0, 0)
{
    Session s;
    tid id;
    {
        auto t = tpp::make_thread("T");
        id = t.get_id();
        mc::settle();
        Explore e;
        tpp::invoke(id, [&] { tpp::notify_for_exit(id); });
        Raw r([&] { tpp::notify_for_exit(id); });
        t.join();
    }
    MC_CHECK(!listed(id), "thread gone");
}

// exit of the main thread itself: nothing blocks
SCENARIO(exit_of_main, 0, 0, 0, 0)
{
    int k = mc::choose(Blocking::simple_kinds, "call");
    Session s;
    Blocking b(k);
    auto t0 = mc::now();
    tpp::notify_for_exit(tpp::main_thread::get_id());
    MC_CHECK(tt::notified_for_exit(), "told");
    b.call();
    MC_CHECK(mc::now() - t0 < 1000000, "%s blocked", kind_name(k));
}
