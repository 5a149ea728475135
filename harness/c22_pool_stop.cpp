#include "pool_common.h"
// C22: stopping a pending job cancels it; stopping a running one does nothing.

namespace
{
struct Job
{
    mc::Count started, finished;
    tpp::job_future<int> f;
    tpp::job_shared_future<int> sf;
    int run()
    {
        started.add();
        mc::yield();
        finished.add();
        return 4;
    }
    int code() { return get_code([&] { return sf.valid() ? (int)sf.get() : f.get(); }); }
    // ran to the end and delivers, or never ran and is broken
    int finish(const char* what)
    {
        int c = code();
        int n = started;
        MC_CHECK(n == 0 || n == 1, "%s ran %d times", what, n);
        MC_CHECK(c == (n ? 4 : -2), "%s ran %d times and its future delivered %d", what, n, c);
        MC_CHECK((int)finished == n, "%s interrupted", what);
        return n;
    }
};
void stop(Pool& p, Job& j, int way)
{
    if(way == 0) p->stop(j.sf.valid() ? j.sf.id : j.f.id);
    else if(way == 1) { if(j.sf.valid()) j.sf.stop(); else j.f.stop(); }
    else p->stop_all();
}
} // namespace

// stop races with the worker picking the job up
SCENARIO(stop_vs_start, 99, 99, 0, 0)
{
    int way = mc::choose(3, "way"), twice = mc::choose(2, "twice");
    Session s;
    Pool p({{level::normal, 1}});
    Job j;
    int n;
    {
        Explore e;
        j.f = p->schedule([&] { return j.run(); });
        {
            std::unique_ptr<Raw> r;
            if(twice) r = std::make_unique<Raw>([&] { stop(p, j, 0); });
            stop(p, j, way);
        }
        n = j.finish("job");
    }
    mc::settle();
    MC_CHECK((int)j.started == n, "ran after being reported broken");
    MC_CHECK(p->get_jobs_count() == 0, "count %d", (int)p->get_jobs_count());
    mc_observe("%d", n);
}
SCENARIO(stop_vs_start_two_workers, 3, 4, 0, 0)
{
    int way = mc::choose(3, "way");
    Session s;
    Pool p({{level::normal, 2}});
    Job j, k;
    {
        Explore e;
        j.f = p->schedule([&] { return j.run(); });
        k.f = p->schedule([&] { return k.run(); });
        stop(p, j, way);
        j.finish("j");
        int n = k.finish("k");
        MC_CHECK(way == 2 || n == 1, "other job did not run");
    }
    mc::settle();
    MC_CHECK(p->get_jobs_count() == 0, "count");
}

// stopped while certainly pending: never runs; the others run
SCENARIO(pending, 3, 4, 0, 0)
{
    int which = mc::choose(3, "which"), way = mc::choose(3, "way"), shared = mc::choose(2, "shared");
    Session s;
    Pool p({{level::normal, 1}});
    p.occupy({{level::normal, 1}});
    Job j[3];
    for(auto& x : j)
    {
        x.f = p->schedule([&x] { return x.run(); });
        if(shared) x.sf = x.f.share();
    }
    MC_CHECK(p->get_jobs_count() == 4, "count %d", (int)p->get_jobs_count());
    {
        Explore e;
        stop(p, j[which], way);
        int ready = 0;
        for(int i = 0; i < 3; ++i)
        {
            bool gone = way == 2 || i == which;
            auto& f = j[i];
            bool r = shared ? f.sf.is_ready() : f.f.is_ready(), er = shared ? f.sf.has_error() : f.f.has_error();
            MC_CHECK(r == gone && er == gone, "after stop returned: job %d ready %d error %d", i, r, er);
            ready += r;
        }
        MC_CHECK(p->get_jobs_count() == 4u - ready, "count %d", (int)p->get_jobs_count());
        p.free_all();
        for(int i = 0; i < 3; ++i)
        {
            int n = j[i].finish("job");
            MC_CHECK(n == !(way == 2 || i == which), "job %d ran %d times", i, n);
        }
        mc::settle();
    }
    MC_CHECK(p->get_jobs_count() == 0, "count");
    // the pool is still usable
    auto f = p->schedule([] { return 3; });
    MC_CHECK(f.get() == 3, "pool usable after stop");
}

// running, finished, unknown: nothing changes
SCENARIO(not_pending, 4, 5, 0, 0)
{
    int target = mc::choose(3, "target"), way = mc::choose(3, "way");
    Session s;
    Pool p({{level::normal, 1}});
    Job a, b, c;
    Gate g, started;
    a.f = p->schedule([&] { return a.run(); });
    a.f.wait();
    mc::settle();
    b.f = p->schedule([&] { started.open(); g.pass(); return b.run(); });
    started.pass();
    {
        Explore e;
        if(target == 0) stop(p, a, way);
        if(target == 1) stop(p, b, way);
        if(target == 2) { p->stop(0); p->stop(999); if(way == 2) p->stop_all(); }
        MC_CHECK(!b.f.is_ready(), "running job ended by stop");
        MC_CHECK(p->get_jobs_count() == 1, "running job still counts, got %d", (int)p->get_jobs_count());
        {
            Raw r([&] { g.open(); });
            stop(p, b, way);
            MC_CHECK(b.finish("running job") == 1, "running job");
        }
        MC_CHECK(a.finish("finished job") == 1, "finished job");
        c.f = p->schedule([&] { return c.run(); });
        MC_CHECK(c.finish("later job") == 1, "later job");
    }
    mc::settle();
    MC_CHECK(p->get_jobs_count() == 0, "count");
}

// stop_all against schedulers: every job either runs or is broken
SCENARIO(stop_all_vs_schedule, 4, 5, 0, 0)
{
    Session s;
    Pool p({{level::normal, 1}});
    Job a, b;
    {
        Explore e;
        Raw r([&] { p->stop_all(); });
        a.f = p->schedule([&] { return a.run(); });
        b.f = p->schedule(tpp::priority::high(), [&] { return b.run(); });
        a.finish("a");
        b.finish("b");
    }
    mc::settle();
    MC_CHECK(p->get_jobs_count() == 0, "count");
    auto f = p->schedule([] { return 3; });
    MC_CHECK(f.get() == 3, "pool usable after stop_all");
}

// stop against a priority change of the same job
SCENARIO(stop_vs_change, 4, 5, 0, 0)
{
    int busy = mc::choose(2, "busy"), to = mc::choose(2, "to");
    Session s;
    Pool p({{level::normal, 1}});
    if(busy) p.occupy({{level::normal, 1}});
    Job a, b;
    {
        Explore e;
        a.f = p->schedule(tpp::priority::high(3), [&] { return a.run(); });
        {
            Raw r([&] { p->change_priority(a.f.id, to ? tpp::priority::critical() : tpp::priority::normal()); });
            p->stop(a.f.id);
        }
        b.f = p->schedule([&] { return b.run(); });
        p.free_all();
        int n = a.finish("a");
        if(busy) MC_CHECK(n == 0, "stopped pending job ran");
        MC_CHECK(b.finish("b") == 1, "later job");
    }
    mc::settle();
    MC_CHECK(p->get_jobs_count() == 0, "count");
}

// what is left of jobs that are gone does nothing to later ones
SCENARIO(old_handles, 0, 0, 0, 0)
{
    int n = 1 + mc::choose(3, "jobs before"), end = mc::choose(4, "how they ended"), use = mc::choose(4, "use"), later = 1 + mc::choose(3, "jobs after");
    Session s;
    Pool p({{level::normal, 1}});
    std::vector<std::unique_ptr<Job>> old, fresh;
    if(end) p.occupy({{level::normal, 1}});
    for(int i = 0; i < n; ++i)
    {
        old.push_back(std::make_unique<Job>());
        old[i]->f = p->schedule(i % 2 ? tpp::priority::high() : tpp::priority::normal(), [j = old[i].get()] { return j->run(); });
    }
    if(end == 1) for(auto& x : old) x->f.stop();
    if(end >= 2) p->stop_all();
    p.free_all();
    p->wait_all();
    p.idle_again();
    if(end == 3) p->stop_all();
    MC_CHECK(p->get_jobs_count() == 0, "count");
    p.occupy({{level::normal, 1}});
    for(int i = 0; i < later; ++i)
    {
        fresh.push_back(std::make_unique<Job>());
        fresh[i]->f = p->schedule([j = fresh[i].get()] { return j->run(); });
    }
    for(auto& x : old)
    {
        if(use == 0) p->stop(x->f.id);
        if(use == 1) x->f.stop();
        if(use == 2) x->f.change_priority(tpp::priority::critical());
        if(use == 3) p->wait(x->f.id);
    }
    MC_CHECK((int)p->get_jobs_count() == later + 1, "count");
    for(auto& x : fresh) MC_CHECK(!x->f.is_ready(), "later job ended by the handle of an earlier one");
    p.free_all();
    for(auto& x : fresh) MC_CHECK(x->finish("later job") == 1, "later job did not run");
    for(auto& x : old) MC_CHECK(x->finish("earlier job") == (end == 0), "earlier job");
    mc::settle();
    MC_CHECK(p->get_jobs_count() == 0, "count");
}

// continuations and waiters of a stopped job proceed
SCENARIO(observers_of_stopped, 99, 99, 0, 0)
{
    int way = mc::choose(3, "way");
    Session s;
    auto me = tt::get_id();
    Pool p({{level::normal, 1}});
    p.occupy({{level::normal, 1}});
    Job j;
    j.f = p->schedule([&] { return j.run(); });
    j.sf = j.f.share();
    mc::Var<int> seen{0};
    auto c = j.sf.then(me, [&](tpp::shared_future<int> x) { seen = get_code([&] { return x.get(); }); });
    {
        Explore e;
        Raw r([&] { stop(p, j, way); });
        c.wait();
        p->wait(j.sf.id);
        MC_CHECK(j.finish("job") == 0, "ran");
    }
    MC_CHECK(seen == -2, "continuation saw %d", seen.get());
    p.free_all();
    mc::settle();
}

// every pending job is stopped, whatever its level and priority, and only the pending ones
SCENARIO(stop_all_of_any_priority, 0, 1, 0, 0)
{
    Session s;
    levels l{{level::normal, 1}, {level::critical, 1}};
    Pool p(l);
    p.occupy(l);
    const int prio[] = {0, 1, 7, 100, 100000};
    int n = 1 + mc::choose(3, "jobs"), how = mc::choose(3, "how"), again = mc::choose(2, "again");
    std::vector<std::unique_ptr<Job>> j;
    for(int i = 0; i < n; ++i)
    {
        pgroup g(lv[mc::choose(3, "level")], prio[mc::choose(5, "priority")]);
        j.push_back(std::make_unique<Job>());
        auto* x = j.back().get();
        x->f = p->schedule(g, [x] { return x->run(); });
        if(i == 1 && mc::choose(2, "change")) p->change_priority(j[0]->f.id, g);
    }
    if(how == 0) p->stop_all();
    if(how == 1) for(auto& x : j) p->stop(x->f.id);
    if(how == 2) for(auto& x : j) x->f.stop();
    for(auto& x : j) MC_CHECK(x->f.is_ready() && x->f.has_error(), "stopped job is not reported broken");
    MC_CHECK(p->get_jobs_count() == 2, "%d jobs left, 2 are running", (int)p->get_jobs_count());
    Job late;
    if(again) late.f = p->schedule(tpp::priority::normal(0), [&] { return late.run(); });
    p.free_all();
    mc::settle();
    for(auto& x : j) MC_CHECK(x->finish("stopped job") == 0, "stopped job ran");
    if(again) MC_CHECK(late.finish("later job") == 1, "later job");
    MC_CHECK(p->get_jobs_count() == 0, "count");
}
