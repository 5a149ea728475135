#include "common.h"
// C07: registration gives each thread one unique id for exactly its lifetime.

static int times_listed(tid id)
{
    int n = 0;
    for(auto x : tpp::get_all_registered_threads()) n += x == id;
    return n;
}

// a thread registers itself while others register it by its native id
SCENARIO(inside_and_outside, 99, 99, 0, 0)
{
    Session s;
    auto me = tt::get_id();
    mc::Var<tid> inside{0}, out1{0}, out2{0};
    mc::Count runs;
    {
        Gate go, fin;
        bool third = mc::choose(2, "third registrar");
        std::thread t([&] {
            go.pass();
            tt::register_this_thread("in");
            inside = tt::get_id();
            MC_CHECK(tt::is_registered(), "registered");
            fin.pass();
            tt::process();
            tt::unregister_this_thread();
            MC_CHECK(tt::get_id() == tpp::invalid_id() && !tt::is_registered(), "unregistered");
        });
        auto native = t.get_id();
        mc::settle();
        {
            Explore e;
            go.open();
            {
                std::unique_ptr<Raw> r;
                if(third) r = std::make_unique<Raw>([&] { out2 = tpp::register_thread(native, "x"); });
                out1 = tpp::register_thread(native, "out");
                MC_CHECK(tpp::invoke(out1, [&] { runs.add(); }), "registered id does not accept tasks");
            }
            mc::settle();
        }
        MC_CHECK(inside != 0 && inside != me, "invalid or reused id");
        MC_CHECK(inside == out1 && (!third || inside == out2), "ids differ: %d %d %d", (int)inside.get(), (int)out1.get(), (int)out2.get());
        MC_CHECK(times_listed(inside) == 1 && tpp::get_all_registered_threads().size() == 2, "listed exactly once");
        fin.open();
        t.join();
        MC_CHECK((int)runs == 1, "task sent to the id ran %d times", (int)runs);
        MC_CHECK(times_listed(inside) == 0, "listed after unregistration");
        MC_CHECK(!tpp::invoke(inside, [&] { runs.add(); }), "accepts tasks after unregistration");
    }
}

// two threads registering at once, plus one from make_thread
SCENARIO(distinct_ids, 4, 99, 0, 0)
{
    Session s;
    auto me = tt::get_id();
    mc::Var<tid> a{0}, b{0}, c{0};
    Gate fin;
    {
        Explore e;
        Raw x([&] { tt::register_this_thread(); a = tt::get_id(); fin.pass(); tt::unregister_this_thread(); });
        Raw y([&] { tt::register_this_thread("y"); b = tt::get_id(); fin.pass(); tt::unregister_this_thread(); });
        tpp::thread t = tpp::make_thread("z");
        c = t.get_id();
        mc::settle();
        MC_CHECK(a != 0 && b != 0 && c != 0, "invalid id");
        MC_CHECK(a != b && a != c && b != c && a != me && b != me && c != me, "ids not distinct");
        MC_CHECK(times_listed(a) == 1 && times_listed(b) == 1 && times_listed(c) == 1 && times_listed(me) == 1, "not listed");
        fin.open();
    }
    MC_CHECK(times_listed(a) == 0 && times_listed(b) == 0 && times_listed(c) == 0, "still listed");
}

// the id of a thread object: same inside and outside, from the first moment until join
SCENARIO(thread_object_id, 8, 99, 0, 0)
{
    Session s;
    mc::Var<tid> in{0};
    mc::Count runs;
    int body = mc::choose(3, "body");
    tid id;
    {
        Explore e;
        const std::string nm("named");
        tpp::thread t(nm, [&] {
            if(body == 0) return;
            tt::register_this_thread();
            in = tt::get_id();
            while(!tt::notified_for_exit()) tt::wait();
            if(body == 1) tt::unregister_this_thread();
        });
        id = t.get_id();
        MC_CHECK(id != 0 && times_listed(id) == 1, "thread object's id not listed");
        MC_CHECK(tpp::get_pending_task_count_detailed(id).thread_name.size() > 0, "no name");
        MC_CHECK(tpp::invoke(id, [&] { runs.add(); }), "thread object's id does not accept tasks");
        if(body == 0) mc::settle();
        MC_CHECK(times_listed(id) == 1, "listed until joined");
        t.join();
        MC_CHECK(times_listed(id) == 0, "id still listed after its thread object was joined");
        MC_CHECK(!tpp::invoke(id, [&] { runs.add(); }), "id accepts tasks after its thread object was joined");
    }
    if(body) MC_CHECK(in == id, "id inside %d differs from id outside %d", (int)in.get(), (int)id);
    MC_CHECK((int)runs <= 1, "task ran twice");
}

// native id reuse: nothing is inherited, whatever the first thread left behind
SCENARIO(native_id_reuse, 99, 99, 0, 0)
{
    Session s;
    int first = mc::choose(5, "first thread"), second = mc::choose(3, "second thread");
    tid old = 0;
    mc::Count old_runs;
    auto leave = [&](tid id) {
        tpp::invoke(id, [&] { old_runs.add(); });
        tpp::notify_for_exit(id);
    };
    switch(first)
    {
        case 0: { auto t = tpp::make_thread("a"); old = t.get_id(); t.join(); break; }
        case 1: { tpp::thread t([] {}); old = t.get_id(); leave(old); t.join(); break; }                 // never registers itself
        case 2: { tpp::thread t([] { tt::register_this_thread(); }); old = t.get_id(); leave(old); t.join(); break; } // never unregisters
        case 3: { Raw r([&] { tt::register_this_thread("r"); old = tt::get_id(); leave(old); tt::unregister_this_thread(); }); break; }
        case 4: { auto t = std::make_unique<tpp::thread>([] {}); old = t->get_id(); leave(old); t.reset(); break; } // destroyed, not joined explicitly
    }
    MC_CHECK(!listed(old), "old id still listed");
    int before = old_runs;
    mc::Var<tid> now{0};
    mc::Var<int> told{-1}, pending{-1};
    auto look = [&] {
        now = tt::get_id();
        told = tt::notified_for_exit();
        pending = (int)tpp::get_pending_task_count(tt::get_id());
        tt::process();
    };
    {
        Explore e;
        if(second == 0)
        {
            tpp::thread t([&] { tt::register_this_thread(); look(); });
            MC_CHECK(t.get_id() != old, "new thread inherited the id of an earlier thread");
            mc::settle();
        }
        else if(second == 1)
        {
            Raw r([&] { tt::register_this_thread("q"); look(); tt::unregister_this_thread(); });
        }
        else
        {
            auto t = tpp::make_thread("w");
            MC_CHECK(t.get_id() != old, "new worker inherited the id of an earlier thread");
            mc::Var<int> ran{0};
            tpp::invoke(t.get_id(), [&] { ran = 1; now = tt::get_id(); told = tt::notified_for_exit(); pending = 0; });
            mc::settle();
            MC_CHECK(ran == 1, "new worker does not serve its tasks");
        }
    }
    MC_CHECK(now != 0 && now != old, "new thread inherited the id of an earlier thread");
    MC_CHECK(told == 0, "new thread inherited the exit state of an earlier thread");
    MC_CHECK(pending == 0, "new thread inherited %d pending tasks", pending.get());
    MC_CHECK((int)old_runs == before, "task of the earlier thread ran on the new one");
}

// a thread that ends before its thread object registers it from outside
SCENARIO(ends_before_outside_registration, 99, 99, 0, 0)
{
    Session s;
    {
        Explore e;
        tpp::thread t([] { tt::register_this_thread(); tt::unregister_this_thread(); });
        auto id = t.get_id();
        MC_CHECK(id != 0, "invalid id");
        t.join();
        MC_CHECK(!listed(id), "listed after join");
        MC_CHECK(tpp::get_all_registered_threads().size() == 1, "a stale registration is left");
    }
}

// sequences of register/unregister on one thread against a reference
SCENARIO(sequences, 0, 0, 0, 0)
{
    Session s;
    Raw r([&] {
        tid cur = 0;
        std::vector<tid> used{tpp::main_thread::get_id()};
        auto native = std::this_thread::get_id();
        int queued = 0;
        mc::Var<int> ran{0};
        for(int i = 0; i < (mc_thorough() ? 6 : 5); ++i)
        {
            switch(mc::choose(5, "op"))
            {
                case 0: case 1: case 2:
                {
                    int op = mc::choose(3, "register how");
                    tid got;
                    if(op == 0) { tt::register_this_thread(); got = tt::get_id(); }
                    else if(op == 1) { tt::register_this_thread("n"); got = tt::get_id(); }
                    else { got = tpp::register_thread(native); tt::register_this_thread(); MC_CHECK(tt::get_id() == got, "ids differ"); }
                    MC_CHECK(got != 0, "invalid id");
                    if(cur) MC_CHECK(got == cur, "second registration gave another id");
                    else
                    {
                        for(auto u : used) MC_CHECK(got != u, "id used before");
                        used.push_back(got);
                        cur = got;
                        MC_CHECK(tpp::get_pending_task_count(cur) == 0 && !tt::notified_for_exit(), "fresh registration is not clean");
                    }
                    break;
                }
                case 3:
                    tt::unregister_this_thread();
                    if(cur) MC_CHECK(!listed(cur) && !tpp::invoke(cur, [] {}), "still there");
                    cur = 0;
                    queued = 0;
                    break;
                case 4:
                    if(cur)
                    {
                        MC_CHECK(tpp::invoke(cur, [&] { ran = ran + 1; }), "send accepted");
                        ++queued;
                        MC_CHECK((int)tpp::get_pending_task_count(cur) == queued, "count");
                        tpp::notify_for_exit(cur);
                    }
                    break;
            }
            MC_CHECK(tt::is_registered() == (cur != 0), "is_registered");
            MC_CHECK(tt::get_id() == cur, "get_id");
            if(cur) MC_CHECK(times_listed(cur) == 1, "listed once");
            MC_CHECK(tpp::get_all_registered_threads().size() == (cur ? 2u : 1u), "list size");
        }
        if(cur) tt::unregister_this_thread();
    });
}

// moving, swapping and assigning thread objects keeps ids with their threads
SCENARIO(moving_objects, 2, 3, 0, 0)
{
    Session s;
    int how = mc::choose(4, "move");
    auto a = tpp::make_thread("a"), b = tpp::make_thread("b");
    auto ia = a.get_id(), ib = b.get_id();
    mc::settle();
    mc::Var<tid> where{0};
    {
        Explore e;
        auto on = [&](tpp::thread& t) {
            MC_CHECK(tpp::invoke(t.get_id(), [&] { where = tt::get_id(); }), "accepted");
            mc::settle();
            return where.get();
        };
        if(how == 0)
        {
            a.swap(b);
            MC_CHECK(a.get_id() == ib && b.get_id() == ia, "swap");
            MC_CHECK(on(a) == ib && on(b) == ia, "tasks follow the ids");
            b.join();
            MC_CHECK(!listed(ia) && listed(ib), "join of the swapped object");
        }
        if(how == 1)
        {
            tpp::thread c(std::move(a));
            MC_CHECK(c.get_id() == ia && !a.joinable() && c.joinable(), "moved");
            MC_CHECK(on(c) == ia, "task after move");
            c.join();
            MC_CHECK(!listed(ia) && listed(ib), "join of the moved-to object");
        }
        if(how == 2)
        {
            a = std::move(b);
            MC_CHECK(a.get_id() == ib && a.joinable(), "assigned");
            MC_CHECK(!listed(ia) && listed(ib), "assignment did not end the overwritten thread");
            MC_CHECK(on(a) == ib, "task after assignment");
        }
        if(how == 3)
        {
            auto p = std::make_shared<tpp::thread>(std::move(a));
            MC_CHECK(on(*p) == ia, "task after move");
            p.reset();
            MC_CHECK(!listed(ia) && listed(ib), "destroying the moved-to object");
        }
    }
}

// several generations of workers: ids are never repeated
SCENARIO(generations, 0, 0, 0, 0)
{
    Session s;
    std::vector<tid> used{tpp::main_thread::get_id()};
    for(int g = 0; g < 6; ++g)
    {
        std::vector<tpp::thread> v;
        for(int i = 0; i < 3; ++i) v.push_back(tpp::make_thread(i ? "w" : ""));
        for(auto& t : v)
        {
            for(auto u : used) MC_CHECK(t.get_id() != u, "id %d used before", (int)t.get_id());
            used.push_back(t.get_id());
        }
        MC_CHECK(tpp::get_all_registered_threads().size() == 4, "three workers and main");
        v.clear();
        MC_CHECK(tpp::get_all_registered_threads().size() == 1, "only main");
    }
}

// several sessions and times without any: whoever leaves last, later threads get ids of their own
SCENARIO(sessions, 0, 0, 0, 0)
{
    std::vector<tid> used; // ids of threads that are gone
    auto fresh = [&](tid id, const char* who) {
        MC_CHECK(id != tpp::invalid_id(), "%s has no id", who);
        for(auto u : used) MC_CHECK(id != u, "%s got id %d of an earlier thread", who, (int)id);
        MC_CHECK(times_listed(id) == 1, "%s listed %d times", who, times_listed(id));
    };
    auto at_start = [&](const char* who) {
        fresh(tt::get_id(), who);
        MC_CHECK(!tt::notified_for_exit(), "%s is told to exit", who);
        MC_CHECK(tpp::get_pending_task_count(tt::get_id()) == 0, "%s has tasks", who);
        tt::process();
    };
    mc::Count strange;
    for(int step = 0; step < 3; ++step)
    {
        int what = mc::choose(6, "what");
        bool told = what == 1 || what == 5;
        tid id = 0;
        mc::Var<tid> own{0};
        auto body = [&] {
            tt::register_this_thread();
            own = tt::get_id();
            at_start("thread");
            if(told) tpp::notify_for_exit(own);
            tpp::invoke(own, [&] { strange.add(); });
            tt::unregister_this_thread();
        };
        switch(what)
        {
            case 0:
            case 1: // the only registered thread, nothing initialised
            {
                Raw r(body);
                r.join();
                id = own;
                break;
            }
            case 2: // a worker that shutdown waits for: it leaves after the main thread
            {
                tpp::init();
                fresh(tt::get_id(), "main thread");
                auto t = tpp::make_thread("w");
                id = t.get_id();
                fresh(id, "worker");
                mc::settle();
                MC_CHECK(tpp::shutdown() == 0, "threads left");
                break;
            }
            case 3: // the main thread leaves last
            {
                tpp::init();
                {
                    auto t = tpp::make_thread();
                    id = t.get_id();
                    fresh(id, "worker");
                }
                MC_CHECK(tpp::shutdown() == 0, "threads left");
                break;
            }
            case 4: // registered from outside only, nothing initialised
            {
                tpp::thread t([] {});
                id = t.get_id();
                fresh(id, "thread");
                tpp::invoke(id, [&] { strange.add(); });
                t.join();
                break;
            }
            case 5: // another thread initialises and shuts down
            {
                Raw r([&] {
                    tpp::init();
                    own = tt::get_id();
                    at_start("main thread");
                    tpp::notify_for_exit(own);
                    MC_CHECK(tpp::shutdown() == 0, "threads left");
                });
                r.join();
                id = own;
                break;
            }
        }
        MC_CHECK(times_listed(id) == 0, "listed afterwards");
        MC_CHECK(!tpp::invoke(id, [&] { strange.add(); }), "send to a thread that is gone accepted");
        MC_CHECK(tpp::get_all_registered_threads().empty(), "threads left");
        used.push_back(id);
    }
    MC_CHECK((int)strange == 0, "a task of a thread that was gone has been run");
}

// a thread still there after a shutdown that timed out keeps its id until it leaves
SCENARIO(left_over, 0, 0, 0, 0)
{
    int kind = mc::choose(3, "kind"), again = mc::choose(3, "registered again"), rounds = 1 + mc::choose(2, "rounds");
    Gate ready, go, registered, leave;
    mc::Var<tid> own;
    mc::Count ran;
    auto body = [&] {
        tt::register_this_thread("L");
        own = tt::get_id();
        ready.open();
        go.pass();
        if(again == 1) { tt::register_this_thread("again"); MC_CHECK(tt::get_id() == (tid)own, "registering again gave another id"); }
        registered.open();
        leave.pass();
        MC_CHECK(tt::get_id() == (tid)own && tt::notified_for_exit(), "state of the thread that stayed");
        if(kind == 0) tt::unregister_this_thread();
    };
    tpp::init();
    std::thread raw;
    tpp::thread obj;
    if(kind == 0) raw = std::thread(body);
    else if(kind == 1) obj = tpp::thread(body);
    else { obj = tpp::make_thread("M"); tpp::invoke(obj.get_id(), body); }
    ready.pass();
    tid id = own;
    auto here = [&] {
        MC_CHECK(times_listed(id) == 1, "listed %d times after a shutdown that timed out", times_listed(id));
        MC_CHECK(tpp::get_all_registered_threads().size() == 1, "threads listed");
    };
    for(int i = 0; i < rounds; ++i)
    {
        if(i) tpp::init();
        MC_CHECK(tpp::shutdown(1s) == 1, "one thread left");
        here();
        MC_CHECK(kind == 0 || obj.get_id() == id, "id of the object");
    }
    go.open();
    if(again == 2 && kind == 0) MC_CHECK(tpp::register_thread(raw.get_id(), "outside") == id, "registering from outside gave another id");
    registered.pass();
    here();
    tpp::init();
    MC_CHECK(tt::get_id() != id && tpp::get_all_registered_threads().size() == 2, "main thread");
    {
        auto t = tpp::make_thread();
        MC_CHECK(t.get_id() != id, "id used twice");
    }
    MC_CHECK(times_listed(id) == 1, "listed");
    MC_CHECK(tpp::invoke(id, [&] { ran.add(); }), "refused");
    leave.open();
    mc::settle();
    if(raw.joinable()) raw.join();
    if(kind != 0) obj.join();
    MC_CHECK(times_listed(id) == 0 && !tpp::invoke(id, [&] { ran.add(); }), "still there");
    MC_CHECK((int)ran == 0, "task run by a thread told to exit");
    MC_CHECK(tpp::shutdown() == 0, "threads left");
}

// a detached thread keeps its id until it leaves, also without its object
SCENARIO(detached, 4, 100, 0, 0)
{
    Session s;
    bool keep = mc::choose(2, "object kept");
    int how = mc::choose(2, "send");
    Probe p, q;
    {
        Explore e;
        tid id;
        tpp::thread kept;
        {
            auto t = tpp::make_thread("D");
            id = t.get_id();
            t.detach();
            MC_CHECK(t.get_id() == id && !t.joinable(), "id of a detached thread changed");
            if(keep) kept = std::move(t);
        }
        if(keep) MC_CHECK(kept.get_id() == id && !kept.joinable(), "id of a detached thread changed");
        MC_CHECK(listed(id), "detached thread is not registered");
        if(how == 0)
        {
            MC_CHECK(tpp::invoke(id, [&] { p.hit(); }), "refused");
            mc::settle();
        }
        else tpp::async(id, [&] { p.hit(); }).get();
        p.expect("task", 1, id);
        auto other = tpp::make_thread("E");
        MC_CHECK(other.get_id() != id, "id used twice");
        tpp::notify_for_exit(id);
        mc::settle();
        MC_CHECK(!listed(id), "still registered");
        MC_CHECK(!tpp::invoke(id, [&] { q.hit(); }), "accepted");
        MC_CHECK((int)q.runs == 0, "ran");
    }
}
