#include "crowd.h"
#include "pool_common.h"
// C23 with many jobs and waiters.

SCENARIO(many_jobs, 0, 0, 0, 0)
{
    static const int counts[] = {10, 300, 1500};
    int n = counts[mc::choose(3, "jobs")], how = mc::choose(3, "how"), workers = 1 + 3 * mc::choose(2, "workers");
    mc::max_steps(20000000);
    Session s;
    levels ls{{level::normal, (size_t)workers}};
    Pool p(ls);
    p.occupy(ls);
    std::vector<Probe> probe(n);
    std::vector<tpp::job_future<void>> f;
    for(int i = 0; i < n; ++i)
    {
        f.push_back(p->schedule(pgroup(lv[i % 3], i % 7), [&, i] { probe[i].hit(); if(i % 9 == 4) throw Oops{1}; }));
        MC_CHECK((int)p->get_jobs_count() == workers + i + 1, "%d jobs counted, expected %d", (int)p->get_jobs_count(), workers + i + 1);
    }
    p.free_all();
    if(how == 0) p->wait_all();
    else
        for(int k = 0; k < n; ++k)
        {
            int i = how == 1 ? k : n - 1 - k;
            p->wait(f[i].id);
            MC_CHECK((int)probe[i].runs == 1, "wait for job %d returned before it ran", i);
        }
    for(int i = 0; i < n; ++i) MC_CHECK((int)probe[i].runs == 1 && f[i].is_ready(), "job %d", i);
    mc::settle();
    MC_CHECK(p->get_jobs_count() == 0, "%d jobs left", (int)p->get_jobs_count());
}

SCENARIO(many_waiters, 0, 0, 0, 0)
{
    const int n = crowd_size;
    int how = mc::choose(3, "how"), stop = mc::choose(2, "stopped");
    Session s;
    levels ls{{level::normal, 2}};
    Pool p(ls);
    p.occupy(ls);
    auto f = p->schedule([] {});
    Crowd c(n, [&](int i) {
        if(how == 0 || (how == 2 && i % 2)) p->wait(f.id);
        else p->wait_all();
    });
    MC_CHECK((int)c.left == 0, "wait returned early");
    if(stop)
    {
        f.stop();
        mc::settle();
        MC_CHECK((int)c.left == (how == 0 ? n : how == 1 ? 0 : n / 2), "%d waiters returned when the job was stopped", (int)c.left);
    }
    p.free_all();
    mc::settle();
    MC_CHECK((int)c.left == n, "%d of %d waiters returned", (int)c.left, n);
    c.join();
}

// thousands of jobs in the life of a pool: none is mistaken for another
SCENARIO(thousands, 0, 0, 0, 0)
{
    const int n = 8000, batch = 100;
    mc::max_steps(200000000);
    Session s;
    levels ls{{level::critical, 1}};
    Pool p(ls);
    p.occupy(ls);
    auto early = p->schedule([] { return 5; }); // nobody is entitled to run this one
    for(int i = 0; i < n; i += batch)
    {
        std::vector<tpp::job_future<void>> f;
        for(int k = 0; k < batch; ++k) f.push_back(p->schedule([] {}));
        MC_CHECK((int)p->get_jobs_count() == batch + 2, "%d jobs counted, expected %d", (int)p->get_jobs_count(), batch + 2);
        for(auto& x : f)
        {
            MC_CHECK(!x.is_ready(), "job lost");
            x.stop();
            MC_CHECK(x.is_ready() && x.has_error(), "job not stopped");
        }
        MC_CHECK(!early.is_ready() && p->get_jobs_count() == 2, "pending job lost");
    }
    early.change_priority(tpp::priority::critical());
    p.free_all();
    MC_CHECK(early.get() == 5, "value");
    mc::settle();
    MC_CHECK(p->get_jobs_count() == 0, "%d jobs left", (int)p->get_jobs_count());
}
