#include "crowd.h"
#include "pool_common.h"
// C24 with many jobs and workers.

SCENARIO(crowd, 0, 0, 0, 0)
{
    static const int counts[] = {0, 5, 300, 1500};
    int n = counts[mc::choose(4, "pending")], how = mc::choose(3, "how");
    mc::max_steps(20000000);
    Session s;
    auto before = tpp::get_all_registered_threads().size();
    levels ls{{level::normal, 8}, {level::high, 7}, {level::critical, 7}};
    mc::Count started, finished, ran;
    std::vector<tpp::job_future<int>> busy, f;
    Gate g;
    std::unique_ptr<Raw> opener;
    {
        tpp::thread_pool p(ls);
        for(int i = 0; i < 22; ++i) busy.push_back(p.schedule(tpp::priority::critical(9), [&, i] { started.add(); g.pass(); finished.add(); return i; }));
        mc::settle();
        MC_CHECK((int)started == 22, "%d of 22 workers started", (int)started);
        for(int i = 0; i < n; ++i) f.push_back(p.schedule(pgroup(lv[i % 3], i % 7), [&] { ran.add(); return 1; }));
        if(how == 1) // moved first
        {
            tpp::thread_pool q(std::move(p));
            MC_CHECK((int)q.get_jobs_count() == n + 22, "%d jobs after the move", (int)q.get_jobs_count());
            p = std::move(q);
            MC_CHECK((int)p.get_jobs_count() == n + 22, "%d jobs after the move back", (int)p.get_jobs_count());
        }
        opener = std::make_unique<Raw>([&] { mc::settle(); g.open(); });
        if(how == 2)
        {
            tpp::thread_pool other(levels{{level::normal, 1}});
            p = std::move(other); // ends the old one
            MC_CHECK((int)finished == 22, "assigned over with %d of 22 running jobs finished", (int)finished);
            MC_CHECK(p.schedule([] { return 5; }).get() == 5, "new pool");
        }
    }
    MC_CHECK((int)finished == 22, "destroyed with %d of 22 running jobs finished", (int)finished);
    opener->join();
    MC_CHECK(tpp::get_all_registered_threads().size() == before, "workers left");
    for(int i = 0; i < 22; ++i) MC_CHECK(get_code([&] { return busy[i].get(); }) == i, "running job %d", i);
    MC_CHECK((int)ran == 0, "%d pending jobs ran", (int)ran);
    for(auto& x : f)
    {
        MC_CHECK(x.is_ready(), "pending job not reported");
        MC_CHECK(get_code([&] { return x.get(); }) == -2, "pending job not broken");
        x.stop();
        x.change_priority(tpp::priority::high());
    }
}

// moved on and on
SCENARIO(many_moves, 0, 0, 0, 0)
{
    int n = 1 + mc::choose(20, "moves"), assign = mc::choose(2, "assign");
    Session s;
    Gate g;
    std::vector<tpp::thread_pool> v;
    v.emplace_back(levels{{level::normal, 1}});
    auto busy = v[0].schedule([&] { g.pass(); return 1; });
    auto a = v[0].schedule([] { return 2; });
    auto b = v[0].schedule([] { return 3; });
    mc::settle();
    for(int i = 0; i < n; ++i)
    {
        if(assign && i % 2)
        {
            tpp::thread_pool t(levels{});
            t = std::move(v.back());
            v.push_back(std::move(t));
        }
        else
        {
            tpp::thread_pool t(std::move(v.back()));
            v.push_back(std::move(t));
        }
    }
    auto& p = v.back();
    MC_CHECK(p.get_jobs_count() == 3, "%d jobs", (int)p.get_jobs_count());
    a.stop();
    MC_CHECK(a.is_ready() && p.get_jobs_count() == 2, "handle of a moved pool does not stop the job");
    auto c = p.schedule([] { return 4; });
    b.change_priority(tpp::priority::high());
    g.open();
    MC_CHECK(busy.get() == 1 && b.get() == 3 && c.get() == 4 && get_code([&] { return a.get(); }) == -2, "results");
}
