#include "pool_common.h"
#include <numeric>
// C32: nothing given to the library is kept longer than needed, nothing accumulates.

namespace
{
// exception with a counted payload
struct Heavy
{
    Tracked t;
    explicit Heavy(Life& l) : t(l) {}
};
void none(Life& l, const char* what)
{
    MC_CHECK((int)l.live == 0, "%s: %d instances are still alive", what, (int)l.live);
}
} // namespace

// a result and its handles, dropped in every order
SCENARIO(handles, 0, 0, 0, 0)
{
    Session s;
    Life v, c;
    {
        auto p = std::make_unique<tpp::promise<Tracked>>();
        auto f = p->get_future();
        std::unique_ptr<tpp::shared_future<Tracked>> a, b;
        std::unique_ptr<tpp::future<void>> n;
        int outcome = mc::choose(3, "outcome"); // value, exception, none
        int cont = mc::choose(3, "continuation"); // none, for this thread, for a dead one
        bool early = mc::choose(2, "set first");
        tpp::thread dead = tpp::make_thread("D");
        tid did = dead.get_id();
        dead.join();
        a = std::make_unique<tpp::shared_future<Tracked>>(f.share());
        b = std::make_unique<tpp::shared_future<Tracked>>(*a);
        auto set = [&] {
            if(outcome == 0) p->set_value(Tracked(v));
            if(outcome == 1) p->set_exception(std::make_exception_ptr(Heavy(v)));
        };
        if(early) set();
        if(cont)
            n = std::make_unique<tpp::future<void>>(
                a->then(cont == 1 ? tt::get_id() : did, [k = Tracked(c)](tpp::shared_future<Tracked>) {}));
        if(!early) set();
        if(outcome != 2)
        {
            // whoever looks at the result does not take it away
            for(int i = 0; i < 2; ++i)
            {
                bool val = false, exc = false;
                try
                {
                    val = b->get().l == &v;
                }
                catch(const Heavy& h)
                {
                    exc = h.t.l == &v;
                }
                MC_CHECK(val == (outcome == 0) && exc == (outcome == 1), "result");
            }
            MC_CHECK((int)v.live == 1, "%d instances of the result", (int)v.live);
        }
        // drop the four handles in any order
        int left = 4;
        bool dropped[4] = {};
        while(left)
        {
            int k = mc::choose(left, "drop"), i = 0;
            for(;; ++i)
                if(!dropped[i] && k-- == 0) break;
            dropped[i] = true;
            --left;
            if(i == 0) p.reset();
            if(i == 1) a.reset();
            if(i == 2) b.reset();
            if(i == 3) n.reset();
            if(outcome != 2 && dropped[0] && dropped[1] && dropped[2]) none(v, "result without handles");
        }
        none(v, "result without handles");
        none(c, "continuation of a finished result");
    }
    tt::process();
    none(v, "result");
    none(c, "continuation");
}

// the result belongs to the one who got it
SCENARIO(taken, 0, 0, 0, 0)
{
    Session s;
    Life v;
    tpp::promise<Tracked> p;
    auto f = p.get_future();
    bool before = mc::choose(2, "promise dropped before");
    bool exc = mc::choose(2, "exception");
    if(exc) p.set_exception(std::make_exception_ptr(Heavy(v)));
    else p.set_value(Tracked(v));
    if(before) p = {};
    {
        try
        {
            auto x = f.get();
            MC_CHECK(!exc && x.owner, "value");
        }
        catch(const Heavy& h)
        {
            MC_CHECK(exc && h.t.owner, "exception");
        }
        MC_CHECK(!f.valid(), "still valid");
    }
    if(before) none(v, "taken result");
    p = {};
    none(v, "taken result");
}

// two threads drop the last handles of a result at the same time
SCENARIO(dropped_by_two, 99, 99, 0, 0)
{
    Session s;
    Life v, c;
    int what = mc::choose(4, "what");
    {
        tpp::promise<Tracked> p;
        auto a = p.get_future().share();
        auto b = a;
        tpp::future<void> n;
        if(what >= 2) n = a.then(tt::get_id(), std::launch::async, [k = Tracked(c)](tpp::shared_future<Tracked>) {});
        if(what == 0) p.set_value(Tracked(v));
        Explore e;
        Raw r([&] {
            a = {};
            if(what == 1 || what == 2) p.set_value(Tracked(v));
            p = {};
        });
        b = {};
        n = {};
        r.join();
        tt::process();
    }
    none(v, "result");
    none(c, "continuation");
}

// combinations of results
static void combination(int kind)
{
    Session s;
    Life v, c;
    {
        tpp::promise<Tracked> p[3];
        std::vector<tpp::shared_future<Tracked>> in;
        for(auto& x : p) in.push_back(x.get_future().share());
        int order = mc::choose(6, "order");
        int perm[3] = {0, 1, 2};
        for(int i = 0; i < order; ++i) std::next_permutation(perm, perm + 3);
        int before = mc::choose(4, "ready before"); // how many are satisfied before the call
        int outcome = mc::choose(3, "outcome");
        bool keep = mc::choose(2, "keep inputs");
        bool take = mc::choose(3, "take") == 0;
        auto set = [&](int i) {
            if(outcome == 0 || i != perm[1]) p[i].set_value(Tracked(v));
            else if(outcome == 1) p[i].set_exception(std::make_exception_ptr(Heavy(v)));
            else p[i] = {};
        };
        for(int i = 0; i < before; ++i) set(perm[i]);
        tpp::future<void> done;
        auto use = [&](auto f) {
            if(take) done = f.then(tt::get_id(), [k = Tracked(c)](auto x) { x.get(); });
        };
        if(kind == 0) use(tpp::when_all(in.begin(), in.end()));
        if(kind == 1) use(tpp::when_all(in[0], in[1], in[2]));
        if(kind == 2) use(tpp::when_any(in.begin(), in.end()));
        if(kind == 3) use(tpp::when_any(in[0], in[1], in[2]));
        if(!keep) in.clear();
        for(int i = before; i < 3; ++i) set(perm[i]);
        tt::process();
        if(take) MC_CHECK(done.is_ready(), "combination not done");
        none(c, "continuation of a combination");
        for(auto& x : p) x = {};
        in.clear();
        none(v, "inputs of a combination");
    }
    none(v, "inputs of a combination");
}
SCENARIO(combinations, 0, 0, 0, 0) { combination(mc::choose(4, "kind")); }

// tasks: the callable goes away when it has run or cannot run any more
SCENARIO(tasks, 0, 0, 0, 0)
{
    Session s;
    Life v, r;
    tid me = tt::get_id();
    int entry = mc::choose(7, "entry");
    int fate = mc::choose(3, "fate"); // runs, throws, discarded with its thread
    mc::Count runs;
    {
        auto t = tpp::make_thread("T");
        tid id = fate == 2 ? t.get_id() : me;
        Gate g;
        if(fate == 2)
        {
            tpp::invoke(id, [&] { g.pass(); });
            mc::settle();
        }
        tpp::future<Tracked> f;
        auto fn = [&runs, fate, &r, k = Tracked(v)]() {
            runs.add();
            if(fate == 1) throw Oops{1};
            return Tracked(r);
        };
        tpp::promise<void> p;
        switch(entry)
        {
            case 0: tpp::invoke(id, std::move(fn)); break;
            case 1: tpp::invoke(id, [fn = std::move(fn)](const Tracked&) { fn(); }, Tracked(v)); break;
            case 2: f = tpp::async(id, std::launch::async, std::move(fn)); break;
            case 3: f = tpp::async(id, std::launch::async, [fn = std::move(fn)](const Tracked&) { return fn(); }, Tracked(v)); break;
            case 4: f = tpp::make_ready_future().then(id, std::launch::async, [fn = std::move(fn)](tpp::future<void>) { return fn(); }); break;
            case 5:
                f = p.get_future().then(id, std::launch::async, [fn = std::move(fn)](tpp::future<void>) { return fn(); });
                p.set_value();
                break;
            case 6:
                f = p.get_future().share().then(id, std::launch::async, [fn = std::move(fn)](tpp::shared_future<void>) { return fn(); });
                p.set_value();
                break;
        }
        {
            auto rest = std::move(fn); // what is left of the local one
        }
        if(fate == 2)
        {
            tpp::notify_for_exit(id);
            g.open();
            t.join();
        }
        else
        {
            try { tt::process(); }
            catch(const Oops&) {}
        }
        MC_CHECK((int)runs == (fate != 2), "task ran %d times", (int)runs);
        int own = 1 ; // the moved-from local callable
        MC_CHECK((int)v.live <= own, "callable: %d instances are alive after the task has %s", (int)v.live - own, fate == 2 ? "been discarded" : "run");
        if(entry >= 2 && fate == 0)
        {
            MC_CHECK((int)r.live == 1, "result: %d instances", (int)r.live);
            int keep = mc::choose(2, "get");
            if(keep) { auto x = f.get(); }
            f = {};
            p = {};
        }
        none(r, "result");
    }
    none(v, "callable");
}

// jobs of a pool: after they ran, were stopped or the pool is gone
SCENARIO(jobs, 0, 0, 0, 0)
{
    Session s;
    Life v, r;
    levels l{{level::normal, 1}};
    int fate = mc::choose(5, "fate"); // runs, throws, stopped, stop_all, pool gone
    int moves = mc::choose(3, "priority changes");
    bool drop = mc::choose(2, "future dropped first");
    bool after = mc::choose(2, "change after the end");
    mc::Count runs;
    {
        Pool p(l);
        p.occupy(l);
        auto f = p->schedule(
            [&runs, fate, &r, k = Tracked(v)](const Tracked&) {
                runs.add();
                if(fate == 1) throw Oops{1};
                return Tracked(r);
            },
            Tracked(v));
        auto id = f.id;
        for(int i = 0; i < moves; ++i) f.change_priority(pgroup(level::normal, 5 + i));
        if(drop) f = {};
        if(fate == 2) p->stop(id);
        if(fate == 3) p->stop_all();
        if(fate == 2 || fate == 3) none(v, "stopped job");
        p.free_all();
        if(fate == 4)
        {
            mc::explore(false);
            p->stop_all();
            none(v, "job of a stopped pool");
            p.p.reset();
        }
        mc::settle();
        MC_CHECK((int)runs == (fate <= 1), "job ran %d times", (int)runs);
        none(v, "finished job");
        if(after && p.p)
        {
            p->change_priority(id, pgroup(level::normal, 1));
            p->stop(id);
        }
        MC_CHECK((int)r.live == (fate == 0 && !drop), "result: %d instances", (int)r.live);
        f = {};
        none(r, "result");
    }
    none(v, "job");
}

// pool with a pending job destroyed
SCENARIO(jobs_of_destroyed_pool, 0, 0, 0, 0)
{
    Session s;
    Life v;
    int n = 1 + mc::choose(3, "jobs");
    bool keep = mc::choose(2, "futures kept");
    std::vector<tpp::job_future<void>> fs;
    mc::Count runs;
    {
        levels l{{level::normal, 1}};
        Pool p(l);
        p.occupy(l);
        for(int i = 0; i < n; ++i)
        {
            auto f = p->schedule([&runs, k = Tracked(v)] { runs.add(); });
            if(keep) fs.push_back(std::move(f));
        }
        Raw r([&] { mc::settle(); p.free_all(); });
        p.p.reset();
    }
    MC_CHECK((int)runs == 0, "job ran");
    none(v, "job of a destroyed pool");
    for(auto& f : fs) MC_CHECK(get_code([&] { f.get(); return 1; }) == -2, "job not reported broken");
}

// callbacks given to init go away with the session
SCENARIO(callbacks, 0, 0, 0, 0)
{
    Life v;
    int n = 1 + mc::choose(3, "sessions");
    bool inner = mc::choose(2, "inner initialisation");
    for(int i = 0; i < n; ++i)
    {
        {
            tpp::init_data d;
            d.log_info = [k = Tracked(v)](const std::string&) {};
            d.log_error = [k = Tracked(v)](const std::string&) {};
            d.set_thread_name = [k = Tracked(v)](const std::string&) {};
            d.on_thread_start = [k = Tracked(v)](const std::string&) {};
            Session s(d);
            if(inner)
            {
                tpp::init(d);
                tpp::shutdown();
            }
            auto t = tpp::make_thread("A");
        }
        none(v, "callbacks after shutdown");
    }
}

// repeating the same thing does not use more and more memory
SCENARIO(steady, 0, 0, 0, 0)
{
    Session s;
    tid me = tt::get_id();
    levels l{{level::normal, 1}, {level::high, 1}};
    int what = mc::choose(39, "what");
    std::unique_ptr<tpp::thread_pool> pool;
    if(what >= 17 && what <= 23) pool = std::make_unique<tpp::thread_pool>(l);
    mc::settle();
    std::mutex m;
    tpp::condition_variable cv;
    tpp::mutex mx;
    tpp::promise<int> never;
    auto nf = never.get_future().share();
    auto t = tpp::make_thread("T");
    tid id = t.get_id();
    mc::settle();
    auto cycle = [&] {
        switch(what)
        {
            case 0: tpp::invoke(id, [] {}); break;
            case 1: tpp::invoke(me, [] {}); tt::process(); break;
            case 2: tpp::async(id, [] { return 1; }).get(); break;
            case 3: tpp::async([] { return 1; }).get(); break;
            case 4: { auto x = tpp::make_thread("X"); break; }
            case 5: { Raw r([&] { tt::register_this_thread("r"); tt::process(); tt::unregister_this_thread(); }); break; }
            case 6: { std::unique_lock<std::mutex> k(m); cv.wait_for(k, 1us); break; }
            case 7: nf.wait_for(1us); break;
            case 8: tt::wait_for(1us); tt::sleep_for(1us); break;
            case 9: mx.lock(); mx.unlock(); break;
            case 10:
                mx.lock();
                tpp::invoke(id, [&] { mx.lock(); mx.unlock(); });
                mc::settle();
                mx.unlock();
                break;
            case 11: cv.notify_one(); cv.notify_all(); tpp::notify(id); break;
            case 12: { tpp::promise<int> p; auto f = p.get_future().then(me, [](tpp::future<int> x) { return x.get(); }); p.set_value(1); f.get(); break; }
            case 13: { tpp::promise<int> p; auto f = p.get_future().then(me, [](tpp::future<int> x) { return x.get(); }); break; }
            case 14:
            {
                tpp::promise<int> p, q;
                auto f = tpp::when_any(p.get_future(), q.get_future());
                p.set_value(1);
                f.get();
                q.set_value(2);
                break;
            }
            case 15:
            {
                tpp::promise<int> p, q;
                auto f = tpp::when_all(p.get_future(), q.get_future());
                p.set_value(1);
                break;
            }
            case 16:
            {
                std::vector<tpp::promise<int>> p(3);
                std::vector<tpp::future<int>> f;
                for(auto& x : p) f.push_back(x.get_future());
                auto r = tpp::when_any(f.begin(), f.end());
                p[1].set_value(1);
                break;
            }
            case 17: pool->schedule([] { return 1; }).get(); break;
            case 18: { auto f = pool->schedule(tpp::priority::high(), [] {}); f.change_priority(tpp::priority::normal()); f.stop(); break; }
            case 19: pool->schedule([] {}); pool->wait_all(); break;
            case 20: { auto f = pool->schedule([] { throw Oops{1}; }); pool->wait(f.id); break; }
            case 21:
            {
                Gate g, h;
                auto a = pool->schedule([&] { g.pass(); });
                auto b = pool->schedule(tpp::priority::high(), [&] { h.pass(); });
                for(int i = 0; i < 2; ++i)
                {
                    auto c = pool->schedule([] {});
                    c.change_priority(tpp::priority::normal(7));
                    c.change_priority(tpp::priority::high(7));
                    c.stop();
                }
                g.open();
                h.open();
                pool->wait_all();
                break;
            }
            case 22: pool->stop(12345); pool->change_priority(12345, tpp::priority::high()); pool->wait(12345); break;
            case 23: { auto f = pool->schedule([] {}); pool->wait(f.id); f.change_priority(tpp::priority::high()); f.stop(); break; }
            case 24: tpp::invoke(9999, [] {}); tpp::notify(9999); tpp::notify_for_exit(9999); break;
            case 25: tpp::async(9999, [] {}); break;
            case 26: try { tpp::invoke(me, [] { throw Oops{1}; }); tt::process(); } catch(const Oops&) {} break;
            case 27: { std::unique_lock<std::mutex> k(m); try { tpp::invoke(me, [] { throw Oops{1}; }); cv.wait(k); } catch(const Oops&) {} break; }
            case 28: { tpp::thread_pool p(l); p.schedule([] {}); break; }
            case 30: // waits ended by an exit
                {
                    Raw r([&] {
                        tt::register_this_thread();
                        tpp::notify_for_exit(tt::get_id());
                        std::unique_lock<std::mutex> k(m);
                        cv.wait(k);
                        cv.wait_for(k, 1h);
                        k.unlock();
                        nf.wait();
                        nf.wait_for(1h);
                        tt::unregister_this_thread();
                    });
                    break;
                }
            case 31: // waits of a thread that is not registered
                {
                    Raw r([&] {
                        std::unique_lock<std::mutex> k(m);
                        for(int i = 0; i < 4; ++i)
                        {
                            cv.wait(k);
                            cv.wait_for(k, 1h);
                        }
                        k.unlock();
                        nf.wait();
                        nf.wait_for(1h);
                        tt::wait();
                    });
                    break;
                }
            case 32: try { tpp::invoke(me, [] { throw Oops{1}; }); nf.wait_for(1h); } catch(const Oops&) {} break;
            case 33: tpp::invoke(me, [&] { nf.wait_for(1us); }); nf.wait_for(10us); break;
            case 34:
                {
                    tpp::promise<std::string> p;
                    auto f = p.get_future();
                    p.set_value("x");
                    try { p.set_value("y"); } catch(const std::future_error&) {}
                    try { p.get_future(); } catch(const std::future_error&) {}
                    f.get();
                    break;
                }
            case 35: { tpp::thread x([] {}); x.join(); break; }
            case 36: { mx.lock(); tpp::async(id, [&] { return mx.try_lock(); }).get(); try { mx.lock(); } catch(const std::system_error&) {} mx.unlock(); break; }
            case 37: { std::unique_lock<std::mutex> k(m); tpp::invoke(me, [&] { std::unique_lock<std::mutex> q(m); cv.wait_for(q, 1us); }); cv.wait_for(k, 10us); break; }
            case 38: { auto x = std::make_shared<tpp::thread_pool>(levels{{level::normal, 0}}); auto f = x->schedule([] {}); x.reset(); f.wait(); break; }
            case 29: { tpp::init(); tpp::shutdown(); tpp::set_thread_config(id, {}); tpp::get_pending_task_count(id); break; }
        }
        mc::settle();
        tt::process();
    };
    auto live = [&] { return (int)mc_live_allocs(); };
    // threads are limited in the model
    const int n = what == 3 || what == 4 || what == 5 || what == 30 || what == 31 || what == 35 ? 4 : what == 28 ? 2 : 12;
    for(int i = 0; i < n; ++i) cycle();
    int a = live();
    for(int i = 0; i < n; ++i) cycle();
    int b = live();
    for(int i = 0; i < n; ++i) cycle();
    int c = live();
    MC_CHECK(b - a < n || c - b < n, "memory blocks in use grew from %d to %d to %d in %d repetitions each", a, b, c, n);
}
