#include "crowd.h"
#include "pool_common.h"
// C20 with many workers and jobs.

// the named groups mean their levels, whatever the priority
SCENARIO(named_groups, 0, 0, 0, 0)
{
    static const size_t prio[] = {0, 1, 7, 255, 256, 65536, size_t(1) << 31, size_t(1) << 32, size_t(1) << 63, size_t(-1)};
    int l = mc::choose(3, "level"), k = mc::choose(10, "priority"), changed = mc::choose(2, "changed");
    auto named = [&](int i) { return i == 0 ? tpp::priority::normal(prio[k]) : i == 1 ? tpp::priority::high(prio[k]) : tpp::priority::critical(prio[k]); };
    Session s;
    levels ls{{level::normal, 1}, {level::high, 1}, {level::critical, 1}};
    Pool p(ls);
    p.occupy(ls);
    Probe probe;
    auto f = changed ? p->schedule(tpp::priority::critical(3), [&] { probe.hit(); }) : p->schedule(named(l), [&] { probe.hit(); });
    if(changed) f.change_priority(named(l));
    // free the workers from the highest level down
    for(int w = 2; w >= 0; --w)
    {
        p.workers[w].gate->open();
        mc::settle();
        MC_CHECK((int)probe.runs == (w <= l), "job of level %d after the worker of level %d became free: ran %d times", l, w, (int)probe.runs);
        if(w == l) MC_CHECK(probe.where == p.workers[w].id, "wrong worker");
    }
    MC_CHECK(f.is_ready() && !f.has_error(), "future");
}

// many workers of all levels, many jobs
SCENARIO(crowd, 0, 0, 0, 0)
{
    static const int counts[] = {20, 300, 2000};
    int n = counts[mc::choose(3, "jobs")], from_job = mc::choose(2, "scheduled from a job"), wait = mc::choose(2, "get in reverse");
    mc::max_steps(20000000);
    Session s;
    levels ls{{level::normal, 8}, {level::high, 7}, {level::critical, 7}};
    Pool p(ls);
    p.occupy(ls);
    p.free_all();
    mc::settle();
    std::vector<Probe> probe(n);
    std::vector<tpp::job_future<int>> f(n);
    auto fill = [&] {
        for(int i = 0; i < n; ++i)
            f[i] = p->schedule(pgroup(lv[i % 3], i % 11), [&, i] {
                probe[i].hit();
                if(i % 5 == 4) throw Oops{i};
                return i;
            });
    };
    if(from_job) p->schedule(fill).get();
    else fill();
    for(int k = 0; k < n; ++k)
    {
        int i = wait ? n - 1 - k : k;
        int c = get_code([&] { return f[i].get(); });
        MC_CHECK(c == (i % 5 == 4 ? 1000 + i : i), "job %d delivered %d", i, c);
    }
    mc::settle();
    for(int i = 0; i < n; ++i)
    {
        MC_CHECK((int)probe[i].runs == 1, "job %d ran %d times", i, (int)probe[i].runs);
        MC_CHECK(p.level_of(probe[i].where) <= lv[i % 3], "job of level %d ran on a worker of level %d", i % 3, (int)p.level_of(probe[i].where));
    }
    MC_CHECK(p->get_jobs_count() == 0, "jobs left");
}

// as many jobs as workers run at the same time
SCENARIO(all_at_once, 0, 0, 0, 0)
{
    int shape = mc::choose(3, "shape");
    levels ls;
    if(shape == 0) ls = {{level::normal, 24}};
    if(shape == 1) ls = {{level::normal, 8}, {level::high, 8}, {level::critical, 8}};
    if(shape == 2) ls = {{level::critical, 24}};
    Session s;
    Pool p(ls);
    mc::Count running;
    Gate g;
    std::vector<tpp::job_future<void>> f;
    for(int i = 0; i < 30; ++i) f.push_back(p->schedule(tpp::priority::critical(), [&] { running.add(); g.pass(); }));
    mc::settle();
    MC_CHECK((int)running == 24, "%d of 24 workers busy although 30 jobs are pending", (int)running);
    g.open();
    p->wait_all();
    MC_CHECK((int)running == 30, "%d of 30 jobs ran", (int)running);
}

// whatever the job throws comes out of its future
SCENARIO(any_exception, 0, 0, 0, 0)
{
    int k = mc::choose(n_exceptions, "exception"), v = mc::choose(2, "void"), shared = mc::choose(2, "shared");
    Session s;
    tpp::thread_pool p(levels{{level::normal, 1}});
    int r;
    if(v)
    {
        auto f = p.schedule([k] { throw_number(k); });
        r = shared ? thrown_number([g = f.share()] { g.get(); }) : thrown_number([&] { f.get(); });
    }
    else
    {
        auto f = p.schedule([k] { throw_number(k); return 1; });
        r = shared ? thrown_number([g = f.share()] { g.get(); }) : thrown_number([&] { f.get(); });
    }
    MC_CHECK(r == k, "exception %d came out as %d", k, r);
    MC_CHECK(p.schedule([] { return 3; }).get() == 3, "the worker is lost");
}
