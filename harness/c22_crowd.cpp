#include "crowd.h"
#include "pool_common.h"
// C22 with many jobs.

SCENARIO(many, 0, 0, 0, 0)
{
    static const int counts[] = {10, 40, 300, 1500};
    int n = counts[mc::choose(4, "jobs")], how = mc::choose(4, "how"), workers = 1 + 3 * mc::choose(2, "workers"), changed = mc::choose(2, "changed");
    mc::max_steps(20000000);
    Session s;
    levels ls{{level::normal, (size_t)workers}};
    Pool p(ls);
    p.occupy(ls);
    std::vector<Probe> probe(n);
    std::vector<tpp::job_future<int>> f;
    for(int i = 0; i < n; ++i) f.push_back(p->schedule(pgroup(lv[i % 3], i % 7), [&, i] { probe[i].hit(); return i; }));
    if(changed) for(int i = 0; i < n; i += 2) f[i].change_priority(pgroup(lv[(i + 1) % 3], i % 5));
    std::vector<bool> stopped(n);
    for(int i = 0; i < n; ++i) stopped[i] = how == 0 || (how == 1 && i % 2) || (how == 2 && i < n / 2) || (how == 3 && i % 10 != 9);
    if(how == 0) p->stop_all();
    else
        for(int k = 0; k < n; ++k)
        {
            int i = how == 2 ? n - 1 - k : k;
            if(!stopped[i]) continue;
            if(k % 3) f[i].stop();
            else p->stop(f[i].id);
        }
    int pending = 0;
    for(int i = 0; i < n; ++i)
    {
        pending += !stopped[i];
        MC_CHECK(f[i].is_ready() == stopped[i], "job %d: ready %d", i, (int)f[i].is_ready());
    }
    MC_CHECK((int)p->get_jobs_count() == pending + workers, "%d jobs counted, expected %d", (int)p->get_jobs_count(), pending + workers);
    p.free_all();
    p->wait_all();
    mc::settle();
    for(int i = 0; i < n; ++i)
    {
        MC_CHECK((int)probe[i].runs == !stopped[i], "job %d ran %d times", i, (int)probe[i].runs);
        int c = get_code([&] { return f[i].get(); });
        MC_CHECK(c == (stopped[i] ? -2 : i), "job %d delivered %d", i, c);
    }
    MC_CHECK(p->get_jobs_count() == 0, "jobs left");
    MC_CHECK(p->schedule([] { return 3; }).get() == 3, "the pool does not run jobs any more");
}
