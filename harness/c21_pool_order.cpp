#include "pool_common.h"
// C21: pending pool jobs are served in order of their current priority.

namespace
{
struct Order
{
    std::vector<int> seq;
    std::mutex m;
    void add(int i)
    {
        std::lock_guard<std::mutex> l(m);
        seq.push_back(i);
    }
};
bool higher(pgroup a, pgroup b) { return a.level != b.level ? a.level > b.level : a.priority > b.priority; }
// each started job must not be lower than any job that was still pending
void check_order(const std::vector<int>& seq, const std::vector<pgroup>& g, level worker)
{
    std::vector<bool> pending(g.size(), true);
    for(int i : seq)
    {
        MC_CHECK(pending[i], "job %d ran twice", i);
        for(size_t k = 0; k < g.size(); ++k)
            if(pending[k] && g[k].level >= worker)
                MC_CHECK(!higher(g[k], g[i]), "job %d (level %d priority %d) was taken before job %d (level %d priority %d)", i, (int)g[i].level, (int)g[i].priority, (int)k, (int)g[k].level, (int)g[k].priority);
        pending[i] = false;
    }
}
} // namespace

// every combination of three jobs on one worker
static void three_jobs(level wl)
{
    Session s;
    levels ls{{wl, 1}};
    Pool p(ls);
    p.occupy(ls);
    Order o;
    std::vector<pgroup> g;
    std::vector<tpp::job_future<void>> f;
    int eligible = 0;
    for(int i = 0; i < 3; ++i)
    {
        pgroup x(lv[mc::choose(3, "level")], mc::choose(3, "priority"));
        g.push_back(x);
        f.push_back(p->schedule(x, [&o, i] { o.add(i); }));
        eligible += x.level >= wl;
    }
    p.free_all();
    mc::settle();
    std::lock_guard<std::mutex> l(o.m);
    MC_CHECK((int)o.seq.size() == eligible, "%d of %d jobs ran", (int)o.seq.size(), eligible);
    check_order(o.seq, g, wl);
}
SCENARIO(three_jobs_normal_worker, 0, 0, 0, 0) { three_jobs(level::normal); }
SCENARIO(three_jobs_high_worker, 0, 0, 0, 0) { three_jobs(level::high); }
SCENARIO(three_jobs_critical_worker, 0, 0, 0, 0) { three_jobs(level::critical); }

// changed priorities, up and down, once or twice
static void changed(int changes)
{
    Session s;
    levels ls{{level::normal, 1}};
    Pool p(ls);
    p.occupy(ls);
    Order o;
    std::vector<pgroup> g;
    std::vector<tpp::job_future<void>> f;
    auto group = [](int k) { return pgroup(k == 0 ? level::normal : k == 1 ? level::normal : k == 2 ? level::high : level::critical, k == 0 ? 0 : k == 1 ? 2 : 1); };
    int n = changes == 1 ? 3 : 2;
    for(int i = 0; i < n; ++i)
    {
        auto x = group(mc::choose(4, "group"));
        g.push_back(x);
        f.push_back(p->schedule(x, [&o, i] { o.add(i); }));
    }
    for(int c = 0; c < changes; ++c)
    {
        int i = mc::choose(n, "job"), k = mc::choose(4, "to");
        if(c == 0) p->change_priority(f[i].id, group(k));
        else f[i].change_priority(group(k));
        g[i] = group(k);
    }
    p.free_all();
    mc::settle();
    std::lock_guard<std::mutex> l(o.m);
    MC_CHECK((int)o.seq.size() == n, "%d of %d jobs ran", (int)o.seq.size(), n);
    check_order(o.seq, g, level::normal);
}
SCENARIO(changed_once, 0, 0, 0, 0) { changed(1); }
SCENARIO(changed_twice, 0, 0, 0, 0) { changed(2); }
SCENARIO(changed_three_times, 0, 0, 0, 0) { changed(mc_thorough() ? 4 : 3); }

// priorities change between two choices of the worker
SCENARIO(changed_between_choices, 0, 0, 0, 0)
{
    Session s;
    levels ls{{level::normal, 1}};
    Pool p(ls);
    p.occupy(ls);
    Order o;
    Gate g1;
    std::vector<pgroup> g;
    std::vector<tpp::job_future<void>> f;
    auto group = [](int k) { return pgroup(k < 2 ? level::normal : level::high, k == 0 ? 0 : k == 1 ? 2 : 1); };
    auto first = p->schedule(tpp::priority::critical(9), [&] { g1.pass(); });
    for(int i = 0; i < 3; ++i)
    {
        auto x = group(i);
        g.push_back(x);
        f.push_back(p->schedule(x, [&o, i] { o.add(i); }));
    }
    int a = mc::choose(3, "a"), ka = mc::choose(3, "ka");
    p->change_priority(f[a].id, group(ka));
    g[a] = group(ka);
    p.free_all();
    mc::settle();
    int b = mc::choose(3, "b"), kb = mc::choose(3, "kb");
    p->change_priority(f[b].id, group(kb));
    g[b] = group(kb);
    g1.open();
    mc::settle();
    std::lock_guard<std::mutex> l(o.m);
    MC_CHECK(o.seq.size() == 3, "%d of 3 jobs ran", (int)o.seq.size());
    check_order(o.seq, g, level::normal);
}

// interleavings: schedulers on two threads, then the worker is freed
SCENARIO(concurrent_scheduling, 99, 99, 0, 0)
{
    Session s;
    levels ls{{level::normal, 1}};
    Pool p(ls);
    p.occupy(ls);
    Order o;
    std::vector<pgroup> g{tpp::priority::normal(1), tpp::priority::high(0), tpp::priority::normal(2), tpp::priority::high(3)};
    std::vector<tpp::job_future<void>> f(4);
    {
        Explore e;
        {
            Raw r([&] { for(int i : {0, 1}) f[i] = p->schedule(g[i], [&o, i] { o.add(i); }); });
            for(int i : {2, 3}) f[i] = p->schedule(g[i], [&o, i] { o.add(i); });
        }
        p.free_all();
        mc::settle();
    }
    std::lock_guard<std::mutex> l(o.m);
    MC_CHECK(o.seq.size() == 4, "%d of 4 jobs ran", (int)o.seq.size());
    check_order(o.seq, g, level::normal);
}
// concurrent priority changes, then the worker is freed
SCENARIO(concurrent_changes, 99, 99, 0, 0)
{
    int k0 = mc::choose(3, "k0"), k1 = mc::choose(3, "k1");
    Session s;
    levels ls{{level::normal, 1}};
    Pool p(ls);
    p.occupy(ls);
    Order o;
    auto group = [](int k) { return pgroup(k < 2 ? level::normal : level::high, k == 0 ? 0 : k == 1 ? 5 : 1); };
    std::vector<pgroup> g{tpp::priority::normal(1), tpp::priority::normal(2), tpp::priority::normal(3)};
    std::vector<tpp::job_future<void>> f(3);
    for(int i = 0; i < 3; ++i) f[i] = p->schedule(g[i], [&o, i] { o.add(i); });
    {
        Explore e;
        {
            Raw r([&] { p->change_priority(f[0].id, group(k0)); });
            f[2].change_priority(group(k1));
        }
        p.free_all();
        mc::settle();
    }
    g[0] = group(k0);
    g[2] = group(k1);
    std::lock_guard<std::mutex> l(o.m);
    MC_CHECK(o.seq.size() == 3, "%d of 3 jobs ran", (int)o.seq.size());
    check_order(o.seq, g, level::normal);
}

// two workers of different levels: one of them is freed and chooses
SCENARIO(two_workers, 1, 2, 0, 0)
{
    int freed = mc::choose(2, "freed"), change = mc::choose(4, "change"), to = mc::choose(3, "to");
    Session s;
    levels ls{{level::normal, 1}, {level::high, 1}};
    Pool p(ls);
    p.occupy(ls);
    Order o;
    std::vector<pgroup> g{tpp::priority::normal(4), tpp::priority::high(1), tpp::priority::critical(0)};
    std::vector<tpp::job_future<void>> f(3);
    for(int i = 0; i < 3; ++i) f[i] = p->schedule(g[i], [&o, i] { o.add(i); });
    if(change < 3) { g[change] = pgroup(lv[to], 2); f[change].change_priority(g[change]); }
    {
        Explore e;
        p.workers[freed].gate->open();
        mc::settle();
    }
    {
        std::lock_guard<std::mutex> l(o.m);
        auto wl = freed ? level::high : level::normal;
        size_t n = 0;
        for(auto& x : g) n += x.level >= wl;
        MC_CHECK(o.seq.size() == n, "%d jobs ran, %d eligible", (int)o.seq.size(), (int)n);
        check_order(o.seq, g, wl);
    }
    p.free_all();
    mc::settle();
}

// changes of running, finished and unknown jobs have no effect
SCENARIO(no_effect, 1, 2, 0, 0)
{
    int which = mc::choose(4, "which");
    Session s;
    levels ls{{level::normal, 1}};
    Pool p(ls);
    Order o;
    Gate g, started;
    auto done = p->schedule([&o] { o.add(0); });
    done.wait();
    mc::settle();
    auto running = p->schedule([&] { o.add(1); started.open(); g.pass(); });
    started.pass();
    auto a = p->schedule(tpp::priority::normal(1), [&o] { o.add(2); });
    auto b = p->schedule(tpp::priority::normal(2), [&o] { o.add(3); });
    {
        Explore e;
        if(which == 0) p->change_priority(running.id, tpp::priority::critical(9));
        if(which == 1) p->change_priority(done.id, tpp::priority::critical(9));
        if(which == 2) { p->change_priority(12345, tpp::priority::critical(9)); p->change_priority(0, tpp::priority::critical(9)); }
        if(which == 3) { running.change_priority(tpp::priority::critical(9)); done.change_priority(tpp::priority::high()); }
        g.open();
        mc::settle();
    }
    std::lock_guard<std::mutex> l(o.m);
    MC_CHECK((o.seq == std::vector<int>{0, 1, 3, 2}), "order changed");
    MC_CHECK(p->get_jobs_count() == 0, "count");
}
