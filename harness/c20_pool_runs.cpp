#include "pool_common.h"
// C20: a pool job runs exactly once, on a worker entitled to it.

namespace
{
struct Job
{
    Probe probe;
    int throws = 0;
    tpp::job_future<int> f;
    int run()
    {
        probe.hit();
        if(throws) throw Oops{4};
        return 4;
    }
    void finish(Pool& p, const char* what)
    {
        int c = get_code([&] { return f.get(); });
        MC_CHECK(c == (throws ? 1004 : 4), "%s: future delivered %d", what, c);
        MC_CHECK((int)probe.runs == 1, "%s ran %d times", what, (int)probe.runs);
        MC_CHECK(p.is_worker(probe.where), "%s ran on thread %d, not a worker", what, (int)probe.where.get());
    }
};
} // namespace

// two threads schedule at once
static void schedulers(size_t workers, bool third)
{
    int throws = mc::choose(2, "throws");
    Session s;
    Pool p({{level::normal, workers}});
    Job a, b, c;
    b.throws = throws;
    {
        Explore e;
        Raw r([&] { b.f = p->schedule([&] { return b.run(); }); });
        a.f = p->schedule([&] { return a.run(); });
        if(third) c.f = p->schedule(tpp::priority::high(), [&] { return c.run(); });
        r.join();
        a.finish(p, "a");
        b.finish(p, "b");
        if(third) c.finish(p, "c");
        r.t = std::thread([] {});
    }
    mc::settle();
    MC_CHECK((int)a.probe.runs == 1 && (int)b.probe.runs == 1 && (int)c.probe.runs == third, "ran again");
    MC_CHECK(p->get_jobs_count() == 0, "count");
}
SCENARIO(two_schedulers, 4, 5, 0, 0) { schedulers(1, false); }
SCENARIO(two_schedulers_three_jobs, 3, 4, 0, 0) { schedulers(1, true); }
SCENARIO(two_schedulers_two_workers, 2, 3, 0, 0) { schedulers(2, false); }

// entitlement: jobs of every level on pools of every shape, with only some workers free
SCENARIO(entitlement, 3, 4, 0, 0)
{
    int shape = 1 + mc::choose(7, "shape"), busy = mc::choose(8, "busy"), l = mc::choose(3, "level");
    if(busy & ~shape) return;
    Session s;
    levels ls;
    for(int i = 0; i < 3; ++i) if(shape >> i & 1) ls[lv[i]] = 1;
    Pool p(ls);
    p.occupy(ls);
    for(auto& w : p.workers) if(!(busy >> (int)w.l & 1)) w.gate->open();
    mc::settle();
    bool someone = false, ever = false;
    for(auto& w : p.workers)
    {
        if(w.l <= lv[l]) ever = true;
        if(w.l <= lv[l] && !(busy >> (int)w.l & 1)) someone = true;
    }
    Job j;
    {
        Explore e;
        j.f = p->schedule(pgroup(lv[l], 1), [&] { return j.run(); });
        mc::settle();
    }
    MC_CHECK((int)j.probe.runs == (someone ? 1 : 0), "job ran %d times, free entitled worker: %d", (int)j.probe.runs, someone);
    if(someone) MC_CHECK(p.level_of(j.probe.where) <= lv[l], "level %d worker ran a level %d job", (int)p.level_of(j.probe.where), l);
    p.free_all();
    mc::settle();
    MC_CHECK((int)j.probe.runs == (ever ? 1 : 0), "job ran %d times, entitled worker exists: %d", (int)j.probe.runs, ever);
    if(ever)
    {
        MC_CHECK(p.level_of(j.probe.where) <= lv[l], "level %d worker ran a level %d job", (int)p.level_of(j.probe.where), l);
        j.finish(p, "job");
    }
}

// two jobs, two workers, priority of one changed while pending
SCENARIO(after_priority_change, 2, 3, 0, 0)
{
    int l0 = mc::choose(3, "level"), l1 = mc::choose(3, "new level"), other = mc::choose(3, "other"), freed = mc::choose(4, "freed");
    Session s;
    levels ls{{level::normal, 1}, {level::critical, 1}};
    Pool p(ls);
    p.occupy(ls);
    Job j, k;
    j.f = p->schedule(pgroup(lv[l0], 1), [&] { return j.run(); });
    k.f = p->schedule(pgroup(lv[other], 1), [&] { return k.run(); });
    {
        Explore e;
        if(freed == 3)
        {
            Raw r([&] { p.free_all(); });
            p->change_priority(j.f.id, pgroup(lv[l1], 2));
        }
        else
        {
            p->change_priority(j.f.id, pgroup(lv[l1], 2));
            if(freed < 2) p.workers[freed].gate->open(); // 0 normal, 1 critical, 2 none
        }
        mc::settle();
    }
    if(freed == 1) // only the critical worker is free
    {
        MC_CHECK((int)j.probe.runs == (lv[l1] == level::critical), "critical worker and a job whose level is %d now: ran %d times", l1, (int)j.probe.runs);
        MC_CHECK((int)k.probe.runs == (lv[other] == level::critical), "critical worker and a job of level %d: ran %d times", other, (int)k.probe.runs);
    }
    p.free_all();
    j.finish(p, "changed job");
    k.finish(p, "other job");
    if(freed != 3) MC_CHECK(p.level_of(j.probe.where) <= lv[l1], "worker level %d, job level %d", (int)p.level_of(j.probe.where), l1);
    MC_CHECK(p.level_of(k.probe.where) <= lv[other], "worker level %d, job level %d", (int)p.level_of(k.probe.where), other);
    mc::settle();
    MC_CHECK((int)j.probe.runs == 1 && (int)k.probe.runs == 1, "ran again");
    MC_CHECK(p->get_jobs_count() == 0, "count");
}
// repeated changes leave nothing unserved and run nothing twice
SCENARIO(many_changes, 1, 2, 0, 0)
{
    int c1 = mc::choose(4, "first"), c2 = mc::choose(4, "second"), c3 = mc::choose(4, "third");
    Session s;
    Pool p({{level::normal, 1}});
    p.occupy({{level::normal, 1}});
    Job j[3];
    for(auto& x : j) x.f = p->schedule(tpp::priority::normal(1), [&x] { return x.run(); });
    {
        Explore e;
        int cs[3] = {c1, c2, c3};
        for(int i = 0; i < 3; ++i)
        {
            if(cs[i] == 3) continue;
            j[cs[i]].f.change_priority(i == 0 ? tpp::priority::high(i) : i == 1 ? tpp::priority::normal(0) : tpp::priority::critical(5));
        }
        p.free_all();
        mc::settle();
    }
    for(auto& x : j) x.finish(p, "job");
    mc::settle();
    for(auto& x : j) MC_CHECK((int)x.probe.runs == 1, "ran %d times", (int)x.probe.runs);
    MC_CHECK(p->get_jobs_count() == 0, "count");
}

// jobs scheduled from inside jobs, same and other level, also waiting for them
SCENARIO(from_inside_jobs, 2, 3, 0, 0)
{
    int workers = 1 + mc::choose(2, "workers"), l = mc::choose(3, "level"), waits = mc::choose(3, "waits");
    Session s;
    Pool p({{level::normal, (size_t)workers}});
    Job outer, inner, third;
    {
        Explore e;
        outer.f = p->schedule([&] {
            inner.f = p->schedule(pgroup(lv[l], 1), [&] {
                third.f = p->schedule([&] { return third.run(); });
                return inner.run();
            });
            if(waits == 1) inner.f.wait();
            if(waits == 2) p->wait(inner.f.id);
            return outer.run();
        });
        outer.finish(p, "outer");
        inner.finish(p, "inner");
        third.finish(p, "third");
    }
    mc::settle();
    MC_CHECK(p->get_jobs_count() == 0, "count %d", (int)p->get_jobs_count());
}
// a job changes priorities and stops others from inside
SCENARIO(manages_from_inside, 4, 5, 0, 0)
{
    int what = mc::choose(4, "what");
    Session s;
    Pool p({{level::normal, 1}});
    Job a, b;
    mc::Var<int> bcode{0};
    {
        Explore e;
        auto g = std::make_shared<Gate>();
        a.f = p->schedule([&, g] {
            g->pass();
            if(what == 0) p->change_priority(b.f.id, tpp::priority::critical());
            if(what == 1) b.f.change_priority(tpp::priority::high(3));
            if(what == 2) p->stop(b.f.id);
            if(what == 3) p->stop_all();
            p->get_jobs_count();
            return a.run();
        });
        b.f = p->schedule([&] { return b.run(); });
        g->open();
        a.finish(p, "a");
        bcode = get_code([&] { return b.f.get(); });
    }
    MC_CHECK(bcode == (what < 2 ? 4 : -2), "other job delivered %d", bcode.get());
    MC_CHECK((int)b.probe.runs == (what < 2), "other job ran %d times", (int)b.probe.runs);
}
// all workers serve: n jobs that need each other to be running at the same time
SCENARIO(all_workers_used, 3, 4, 0, 0)
{
    Session s;
    Pool p({{level::normal, 2}});
    Job a, b;
    Gate ga, gb;
    {
        Explore e;
        a.f = p->schedule([&] { ga.open(); gb.pass(); return a.run(); });
        b.f = p->schedule([&] { gb.open(); ga.pass(); return b.run(); });
        a.finish(p, "a");
        b.finish(p, "b");
    }
    MC_CHECK(a.probe.where != b.probe.where, "two workers");
}
// default pool and pools with several workers per level
SCENARIO(default_pool, 0, 0, 0, 0)
{
    Session s;
    Job a;
    {
        auto before = tpp::get_all_registered_threads().size();
        tpp::thread_pool p;
        MC_CHECK(tpp::get_all_registered_threads().size() > before, "workers");
        a.f = p.schedule([&] { return a.run(); });
        MC_CHECK(a.f.get() == 4, "value");
        auto sf = p.schedule([](int x) { return x + 1; }, 5).share();
        MC_CHECK(sf.get() == 6, "shared");
        MC_CHECK(p.schedule(tpp::priority::critical(3), [](std::string x) { return x + "y"; }, std::string("x")).get() == "xy", "arguments");
        auto v = p.schedule([] {});
        v.get();
    }
    MC_CHECK((int)a.probe.runs == 1, "once");
}
