#include "pool_common.h"
// C24: destroying or moving a pool is orderly at any moment.

namespace
{
struct Job
{
    mc::Count started, finished;
    tpp::job_future<int> f;
    int run()
    {
        started.add();
        mc::yield();
        finished.add();
        return 4;
    }
    int finish(const char* what)
    {
        int c = get_code([&] { return f.get(); });
        int n = started;
        MC_CHECK(n == 0 || n == 1, "%s ran %d times", what, n);
        MC_CHECK(c == (n ? 4 : -2), "%s ran %d times and its future delivered %d", what, n, c);
        return n;
    }
};
void gone(Pool& p)
{
    for(auto id : p.ids) MC_CHECK(!listed(id), "worker %d still registered after the pool was destroyed", (int)id);
}
} // namespace

// destroyed while jobs are pending, starting, running
SCENARIO(destroy_any_moment, 6, 7, 0, 0)
{
    int by = mc::choose(2, "by");
    Session s;
    Pool p({{level::normal, 1}});
    Job a, b;
    {
        Explore e;
        a.f = p->schedule([&] { return a.run(); });
        b.f = p->schedule(tpp::priority::high(), [&] { return b.run(); });
        if(by)
        {
            Raw r([&] { p.p.reset(); });
            r.join();
            r.t = std::thread([] {});
        }
        else p.p.reset();
        int na = a.started, nb = b.started;
        MC_CHECK(a.f.is_ready() && b.f.is_ready(), "futures not ready after the pool was destroyed");
        MC_CHECK((int)a.finished == na && (int)b.finished == nb, "running job not finished");
        gone(p);
        MC_CHECK(a.finish("a") == na && b.finish("b") == nb, "ran after destruction");
    }
    mc::settle();
}
SCENARIO(destroy_two_workers, 3, 4, 0, 0)
{
    Session s;
    Pool p({{level::normal, 1}, {level::critical, 1}});
    Job a, b;
    {
        Explore e;
        a.f = p->schedule([&] { return a.run(); });
        b.f = p->schedule(tpp::priority::critical(), [&] { return b.run(); });
        p.p.reset();
        MC_CHECK(a.f.is_ready() && b.f.is_ready(), "futures not ready after the pool was destroyed");
        gone(p);
        a.finish("a");
        b.finish("b");
    }
}
// running job is waited for, pending ones are broken
SCENARIO(running_finishes, 6, 7, 0, 0)
{
    int what = mc::choose(6, "job does");
    Session s;
    Pool p({{level::normal, 1}});
    Job a, b, c;
    Gate started, go;
    auto* raw = p.p.get();
    tpp::promise<int> never;
    auto nf = never.get_future();
    tpp::condition_variable cv;
    std::mutex m;
    std::string text = "alive";
    mc::Var<int> inner_code{0};
    a.f = p->schedule([&] {
        go.pass();
        started.open();
        switch(what)
        {
            case 0: break;
            case 1: tt::sleep_for(1h); break;                                  // told to exit
            case 2: inner_code = get_code([&] { return nf.get(); }); break;    // told to exit
            case 3: inner_code = get_code([&] { return b.f.get(); }); break;   // broken, or told to exit
            case 4: { std::unique_lock<std::mutex> l(m); cv.wait(l); break; }
            case 5: raw->wait(b.f.id); break;
        }
        MC_CHECK(text == "alive", "captured data");
        return a.run();
    });
    b.f = p->schedule([&] { return b.run(); });
    {
        Explore e;
        go.open();
        started.pass();
        p.p.reset();
        MC_CHECK((int)a.finished == 1, "destructor returned before the running job finished");
        MC_CHECK(a.finish("running job") == 1, "running job");
        if(what == 3) MC_CHECK(inner_code == -2 || inner_code == 4, "inner get gave %d", inner_code.get());
        else b.finish("pending job");
        gone(p);
    }
    MC_CHECK(mc::now() < 1000000000000ull + 3600000000000ull, "time passed");
}
// jobs that schedule, stop and query while the pool is being destroyed
SCENARIO(jobs_use_dying_pool, 8, 9, 0, 0)
{
    int what = mc::choose(5, "job does");
    Session s;
    Pool p({{level::normal, 1}});
    auto* raw = p.p.get();
    Job a, b;
    std::mutex m;
    {
        Explore e;
        a.f = p->schedule([&] {
            switch(what)
            {
                case 0: { auto f = raw->schedule([&] { return b.run(); }); std::lock_guard<std::mutex> l(m); b.f = std::move(f); break; }
                case 1: raw->stop_all(); break;
                case 2: raw->get_jobs_count(); raw->stop(1); break;
                case 3: raw->change_priority(2, tpp::priority::high()); break;
                case 4: { auto f = raw->schedule(tpp::priority::high(), [&] { return b.run(); }); raw->wait(f.id); break; }
            }
            return a.run();
        });
        p.p.reset();
        a.finish("a");
        gone(p);
        if(what == 0 && (int)a.started)
        {
            std::lock_guard<std::mutex> l(m);
            b.finish("nested job");
        }
    }
}
// the same, nobody keeps a handle of the job
SCENARIO(forgotten_job_uses_dying_pool, 8, 9, 0, 0)
{
    int what = mc::choose(3, "job does");
    Session s;
    Pool p({{level::normal, 1}});
    auto* raw = p.p.get();
    mc::Count ran, nested;
    Gate started;
    {
        Explore e;
        p->schedule([&] {
            started.open();
            auto f = raw->schedule([&] { nested.add(); });
            if(what == 1) f.stop();
            if(what == 2) f.change_priority(tpp::priority::high());
            ran.add();
        });
        started.pass();
        p.p.reset();
        MC_CHECK((int)ran == 1, "running job finished");
        gone(p);
    }
    MC_CHECK((int)nested <= 1, "nested job");
}
// another thread waits on the futures while the pool goes away
SCENARIO(waiter_during_destroy, 4, 5, 0, 0)
{
    Session s;
    Pool p({{level::normal, 1}});
    Job a;
    mc::Var<int> code{0};
    {
        Explore e;
        a.f = p->schedule([&] { return a.run(); });
        auto sf = a.f.share();
        {
            Raw r([&] {
                tt::register_this_thread();
                auto mine = sf;
                code = get_code([&] { return mine.get(); });
                tt::unregister_this_thread();
            });
            p.p.reset();
        }
        MC_CHECK(code == ((int)a.started ? 4 : -2), "ran %d times, delivered %d", (int)a.started, code.get());
    }
}

// handles that outlive the pool
SCENARIO(handles_outlive, 0, 0, 0, 0)
{
    Session s;
    tpp::job_future<int> f, g;
    tpp::job_shared_future<int> h;
    int moved = mc::choose(2, "moved");
    {
        Pool p({{level::normal, 1}});
        p.occupy({{level::normal, 1}});
        f = p->schedule([] { return 1; });
        h = p->schedule([] { return 1; }).share();
        if(moved)
        {
            auto q = std::make_unique<tpp::thread_pool>(std::move(*p.p));
            g = q->schedule([] { return 1; });
            p.free_all();
        }
        else p.free_all();
    }
    auto h2 = h;
    f.stop();
    h.stop();
    h2.change_priority(tpp::priority::high());
    f.change_priority(tpp::priority::critical());
    MC_CHECK(f.is_ready() && h.is_ready(), "resolved");
    tpp::job_future<int> none;
    none.stop();
    none.change_priority(tpp::priority::high());
    if(moved) { g.stop(); MC_CHECK(g.is_ready(), "resolved"); }
}

// moving
SCENARIO(move_keeps_everything, 3, 4, 0, 0)
{
    int how = mc::choose(3, "how"), op = mc::choose(6, "op");
    Session s;
    Pool p({{level::normal, 1}});
    p.occupy({{level::normal, 1}});
    Job a, b;
    a.f = p->schedule([&] { return a.run(); });
    b.f = p->schedule([&] { return b.run(); });
    std::unique_ptr<tpp::thread_pool> q;
    mc::Var<int> order{0}, first{0};
    {
        Explore e;
        if(how == 0) q = std::make_unique<tpp::thread_pool>(std::move(*p.p));
        else if(how == 1)
        {
            q = std::make_unique<tpp::thread_pool>(levels{});
            *q = std::move(*p.p);
        }
        else
        {
            q = std::make_unique<tpp::thread_pool>(std::move(*p.p));
            p.p.reset(); // the moved-from pool goes away
        }
        MC_CHECK(q->get_jobs_count() == 3, "count %d after move", (int)q->get_jobs_count());
        if(op == 1) a.f.stop();
        if(op == 2) a.f.change_priority(tpp::priority::critical());
        if(op == 3) { auto sf = a.f.share(); sf.stop(); a.f = {}; }
        if(op == 4) q->stop(a.f.id);
        p.free_all();
        if(op == 5) q->wait_all();
        if(op == 3) MC_CHECK((int)a.started == 0, "stopped job ran");
        else MC_CHECK(a.finish("a") == (op != 1 && op != 4), "a ran %d times", (int)a.started);
        MC_CHECK(b.finish("b") == 1, "b");
        Job c;
        c.f = q->schedule([&] { return c.run(); });
        MC_CHECK(c.finish("c") == 1, "c");
        c.f = q->schedule([&] { return 4; });
        c.f.stop();
        get_code([&] { return c.f.get(); });
    }
    mc::settle();
    MC_CHECK(q->get_jobs_count() == 0, "count");
    p.p.reset();
    q.reset();
    gone(p);
}
// assigning over a pool destroys what it had
SCENARIO(assign_over, 3, 4, 0, 0)
{
    Session s;
    Pool p({{level::normal, 1}}), q({{level::normal, 1}});
    p.occupy({{level::normal, 1}});
    Job a, b;
    a.f = p->schedule([&] { return a.run(); });
    {
        Explore e;
        b.f = q->schedule([&] { return b.run(); });
        p.free_all();
        *p.p = std::move(*q.p);
        MC_CHECK(a.f.is_ready(), "job of the overwritten pool unresolved");
        a.finish("a");
        gone(p);
        MC_CHECK(b.finish("b") == 1, "job of the moved pool");
        a.f.stop();
        b.f.stop();
        Job c;
        c.f = p->schedule([&] { return c.run(); });
        MC_CHECK(c.finish("c") == 1, "c");
    }
    mc::settle();
}
// while a pool is assigned over, handles of its old jobs do nothing to the jobs of the new one
SCENARIO(old_handles_while_overwritten, 0, 0, 0, 0)
{
    int what = mc::choose(3, "what"), count = 1 + mc::choose(3, "jobs"), shared = mc::choose(2, "shared");
    Session s;
    Pool p({{level::normal, 1}}), q({{level::normal, 1}});
    p.occupy({{level::normal, 1}});
    q.occupy({{level::normal, 1}});
    std::vector<tpp::job_future<int>> a, b;
    std::vector<tpp::job_shared_future<int>> as;
    std::vector<int> order;
    mc::Count called;
    auto use = [&](auto& h) {
        if(what == 0) h.stop();
        else if(what == 1) h.change_priority(tpp::priority::high(9));
        else { h.change_priority(tpp::priority::critical(1)); h.stop(); }
    };
    struct AtEnd
    {
        std::function<void()> f;
        ~AtEnd() { f(); }
    };
    for(int i = 0; i < count; ++i)
    {
        auto guard = std::make_shared<AtEnd>();
        guard->f = [&] {
            called.add();
            for(auto& h : a) use(h);
            for(auto& h : as) use(h);
        };
        auto f = p->schedule([guard] { return 1; });
        if(shared) as.push_back(f.share());
        else a.push_back(std::move(f));
        b.push_back(q->schedule([&, i] { order.push_back(i); return 10 + i; }));
    }
    p.free_all();
    *p.p = std::move(*q.p);
    MC_CHECK((int)called == count, "captured values destroyed %d times", (int)called);
    MC_CHECK((int)p->get_jobs_count() == count + 1, "%d jobs in the new pool, expected %d", (int)p->get_jobs_count(), count + 1);
    for(auto& h : a) use(h);
    for(auto& h : as) use(h);
    q.free_all();
    for(int i = 0; i < count; ++i) MC_CHECK(get_code([&] { return b[i].get(); }) == 10 + i, "job %d of the new pool", i);
    MC_CHECK((int)order.size() == count, "%d jobs ran", (int)order.size());
    p->wait_all();
}
// creation and destruction without jobs, and of several pools
SCENARIO(empty_life, 99, 99, 0, 0)
{
    Session s;
    std::vector<tid> before = tpp::get_all_registered_threads();
    {
        Explore e;
        tpp::thread_pool p({{level::normal, 1}, {level::high, 0}});
        tpp::thread_pool q(levels{});
        MC_CHECK(q.get_jobs_count() == 0, "count");
        q.wait_all();
    }
    MC_CHECK(tpp::get_all_registered_threads().size() == before.size(), "workers left behind");
}
