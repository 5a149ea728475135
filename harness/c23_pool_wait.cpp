#include "pool_common.h"
// C23: pool waits return exactly when the jobs are done; the count is exact when the pool is idle.

// wait(id) and wait_all against running jobs
SCENARIO(wait_returns, 3, 4, 0, 0)
{
    int all = mc::choose(2, "all"), throws = mc::choose(2, "throws"), where = mc::choose(2, "waiter");
    Session s;
    Pool p({{level::normal, 1}});
    mc::Var<int> done{0}, returned{0};
    auto t = tpp::make_thread("T");
    mc::settle();
    {
        Explore e;
        auto f = p->schedule([&] { mc::yield(); done = 1; if(throws) throw Oops{1}; });
        auto g = [&] {
            if(all) p->wait_all();
            else p->wait(f.id);
            MC_CHECK(done == 1, "wait returned before the job was done");
            MC_CHECK(f.is_ready(), "future not ready after wait");
            returned = 1;
        };
        if(where) tpp::async(t.get_id(), g).get();
        else g();
    }
    mc::settle();
    MC_CHECK(returned == 1, "returned");
    MC_CHECK(p->get_jobs_count() == 0, "count %d when idle", (int)p->get_jobs_count());
}
// wait_all covers all jobs present at the call
SCENARIO(wait_all_covers, 3, 4, 0, 0)
{
    int workers = 1 + mc::choose(2, "workers"), from_job = mc::choose(2, "job schedules");
    Session s;
    Pool p({{level::normal, (size_t)workers}});
    mc::Var<int> a{0}, b{0}, c{0};
    {
        Explore e;
        auto fa = p->schedule([&] { if(from_job) p->schedule(tpp::priority::high(), [&] { c = 1; }); a = 1; });
        auto fb = p->schedule([&] { b = 1; });
        p->wait_all();
        MC_CHECK(a == 1 && b == 1, "wait_all returned with unfinished jobs (%d %d)", a.get(), b.get());
    }
    mc::settle();
    MC_CHECK(c == from_job, "nested job");
    MC_CHECK(p->get_jobs_count() == 0, "count %d when idle", (int)p->get_jobs_count());
    p->wait_all();
}
// neither returns while the job still runs or is pending, whatever else happens
SCENARIO(not_early, 4, 5, 0, 1)
{
    int all = mc::choose(2, "all"), pending = mc::choose(2, "pending"), noise = mc::choose(3, "noise");
    Session s;
    Pool p({{level::normal, 1}});
    Gate g;
    mc::Var<int> out{0};
    mc::Var<tid> wid{0};
    auto f = p->schedule([&] { g.pass(); });
    auto f2 = p->schedule([&] {});
    mc::settle();
    Gate start;
    {
        Raw w([&] {
            tt::register_this_thread();
            wid = tt::get_id();
            start.pass();
            if(all) p->wait_all();
            else p->wait(pending ? f2.id : f.id);
            out = 1;
            tt::unregister_this_thread();
        });
        mc::settle();
        {
            Explore e;
            start.open();
            if(noise == 0) tpp::notify(wid);
            if(noise == 1) { tpp::invoke(wid, [] {}); p->change_priority(f2.id, tpp::priority::high()); }
            if(noise == 2) { auto h = p->schedule(tpp::priority::high(), [] {}); h.stop(); }
            mc::settle();
        }
        MC_CHECK(out == 0, "wait returned although the job is not done");
        g.open();
        mc::settle();
        MC_CHECK(out == 1, "wait did not return after the jobs were done");
    }
}
// stopped jobs release their waiters
SCENARIO(stopped, 5, 6, 0, 0)
{
    int all = mc::choose(2, "all"), way = mc::choose(3, "way");
    Session s;
    Pool p({{level::normal, 1}});
    Gate g, started;
    auto f = p->schedule([&] { started.open(); g.pass(); });
    auto f2 = p->schedule([&] {});
    started.pass();
    {
        Explore e;
        mc::Var<int> stopping{0};
        Raw r([&] {
            stopping = 1;
            if(way == 0) p->stop(f2.id);
            if(way == 1) f2.stop();
            if(way == 2) p->stop_all();
            if(all) g.open();
        });
        if(all) p->wait_all();
        else p->wait(f2.id);
        MC_CHECK(stopping == 1, "wait returned before the job was done or stopped");
        r.join();
        r.t = std::thread([] {});
        MC_CHECK(f2.is_ready() && f2.has_error(), "future of a stopped job");
    }
    g.open();
    mc::settle();
    MC_CHECK(p->get_jobs_count() == 0, "count");
}
// unknown and finished jobs, empty pool
SCENARIO(at_once, 0, 0, 0, 0)
{
    Session s;
    Pool p({{level::normal, 1}});
    MC_CHECK(p->get_jobs_count() == 0, "fresh pool");
    p->wait(0);
    p->wait(77);
    p->wait_all();
    auto f = p->schedule([] { return 1; });
    auto id = f.id;
    f.get();
    p->wait(id);
    mc::settle();
    p->wait(id);
    p->wait_all();
    MC_CHECK(p->get_jobs_count() == 0, "idle pool");
}
// counts at every stage
SCENARIO(counts, 4, 5, 0, 0)
{
    int n = 1 + mc::choose(3, "jobs");
    Session s;
    Pool p({{level::normal, 1}});
    Gate g, started;
    auto run = p->schedule([&] { started.open(); g.pass(); MC_CHECK(p->get_jobs_count() >= 1, "running job not counted"); });
    started.pass();
    MC_CHECK(p->get_jobs_count() == 1, "running");
    std::vector<tpp::job_future<int>> f;
    for(int i = 0; i < n; ++i)
    {
        f.push_back(p->schedule([i] { return i; }));
        MC_CHECK(p->get_jobs_count() == size_t(i + 2), "pending");
    }
    if(mc::choose(2, "stop"))
    {
        f.back().stop();
        MC_CHECK(p->get_jobs_count() == size_t(n), "stopped");
        f.back().stop();
        MC_CHECK(p->get_jobs_count() == size_t(n), "stopped twice");
    }
    f[0].change_priority(tpp::priority::high());
    auto c = p->get_jobs_count();
    {
        Explore e;
        g.open();
        for(int i = 0; i < 3; ++i)
        {
            auto d = p->get_jobs_count();
            MC_CHECK(d <= c, "count grew from %d to %d", (int)c, (int)d);
            c = d;
        }
        p->wait_all();
        mc::settle();
    }
    MC_CHECK(p->get_jobs_count() == 0, "idle");
}
// exit ends the wait
SCENARIO(exit_ends_wait, 99, 99, 0, 0)
{
    int all = mc::choose(2, "all");
    Session s;
    Pool p({{level::normal, 1}});
    Gate g, start;
    mc::Var<int> out{0};
    mc::Var<tid> wid{0};
    auto f = p->schedule([&] { g.pass(); });
    {
        Raw w([&] {
            tt::register_this_thread();
            wid = tt::get_id();
            start.pass();
            if(all) p->wait_all();
            else p->wait(f.id);
            out = 1;
            tt::unregister_this_thread();
        });
        mc::settle();
        Explore e;
        start.open();
        tpp::notify_for_exit(wid);
        mc::settle();
        MC_CHECK(out == 1, "wait did not return after the exit notification");
    }
    g.open();
    mc::settle();
}
// several waiters at once, one of them a job
SCENARIO(several_waiters, 2, 3, 0, 0)
{
    Session s;
    Pool p({{level::normal, 2}});
    mc::Var<int> done{0}, ok{0};
    {
        Explore e;
        auto f = p->schedule([&] { done = 1; });
        auto id = f.id;
        auto g = p->schedule([&, id] { p->wait(id); MC_CHECK(done == 1, "early"); ok++; });
        Raw r([&] {
            tt::register_this_thread();
            p->wait(id);
            MC_CHECK(done == 1, "early");
            ok++;
            tt::unregister_this_thread();
        });
        p->wait_all();
        MC_CHECK(done == 1, "early");
    }
    mc::settle();
    MC_CHECK(ok == 2, "waiters");
    MC_CHECK(p->get_jobs_count() == 0, "idle");
}

// jobs finish one by one, in every order: each wait returns exactly with its last job
SCENARIO(one_by_one, 3, 4, 0, 0)
{
    int workers = 1 + mc::choose(3, "workers"), jobs = 1 + mc::choose(3, "jobs"), what = mc::choose(jobs + 1, "waited for");
    Session s;
    {
        Pool p({{level::normal, (size_t)workers}});
        std::vector<std::unique_ptr<Gate>> g;
        mc::Var<int> running[3], finished[3];
        std::vector<tpp::job_future<void>> f;
        for(int i = 0; i < jobs; ++i)
        {
            g.push_back(std::make_unique<Gate>());
            f.push_back(p->schedule([&, i] { running[i] = 1; g[i]->pass(); finished[i] = 1; }));
        }
        mc::settle();
        mc::Var<int> out{0};
        Raw w([&] {
            tt::register_this_thread();
            if(what == jobs) p->wait_all();
            else p->wait(f[what].id);
            out = 1;
            tt::unregister_this_thread();
        });
        mc::settle();
        for(int done = 0; done < jobs; ++done)
        {
            MC_CHECK((int)p->get_jobs_count() == jobs - done, "count %d with %d unfinished jobs", (int)p->get_jobs_count(), jobs - done);
            int k = mc::choose(jobs - done, "finish"), i = 0;
            for(;; ++i)
                if(!finished[i] && k-- == 0) break;
            if(!running[i])
            {
                // pending: stop it instead
                f[i].stop();
                finished[i] = 1;
            }
            else
            {
                Explore e;
                g[i]->open();
                mc::settle();
            }
            mc::settle();
            MC_CHECK(finished[i] == 1, "job finished");
            bool expect = what == jobs ? done + 1 == jobs : finished[what] == 1;
            MC_CHECK(out == (expect ? 1 : 0), "wait %s with %d of %d jobs done", out ? "returned" : "did not return", done + 1, jobs);
        }
    }
}

// wait_all is about the jobs that are in the pool when it is called: later ones do not hold it up
SCENARIO(later_jobs, 2, 3, 0, 0)
{
    int running = mc::choose(2, "running"), how = mc::choose(3, "later job"), by_job = mc::choose(2, "scheduled by the job"), stop = mc::choose(2, "stopped");
    Session s;
    Pool p({{level::normal, 2}});
    Gate g, h;
    mc::Var<int> out{0}, done{0}, later{0};
    auto run_later = [&] { p->schedule(how == 0 ? tpp::priority::normal() : how == 1 ? tpp::priority::high(5) : tpp::priority::critical(), [&] { h.pass(); later = 1; }); };
    auto body = [&] { g.pass(); if(by_job) run_later(); done++; };
    auto first = p->schedule(body);
    tpp::job_future<void> second;
    if(running) second = p->schedule([&] { g.pass(); done++; });
    mc::settle();
    Raw w([&] {
        tt::register_this_thread();
        p->wait_all();
        out = 1;
        tt::unregister_this_thread();
    });
    mc::settle();
    MC_CHECK(out == 0, "wait returned although the job is not done");
    tpp::job_future<void> extra;
    if(stop) extra = p->schedule([] {});
    if(!by_job) run_later();
    mc::settle();
    if(stop) extra.stop();
    {
        Explore e;
        g.open();
        mc::settle();
    }
    MC_CHECK(done == 1 + running && out == 1, "wait did not return after the jobs were done");
    MC_CHECK(later == 0 && p->get_jobs_count() == 1, "later job is not done");
    w.join();
    h.open();
    p->wait_all();
    MC_CHECK(later == 1, "later job");
}
