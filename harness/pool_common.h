#pragma once
#include "common.h"

using level = tpp::priority::category;
using pgroup = tpp::priority::group;
using levels = std::map<level, size_t>;
constexpr level lv[3] = {level::normal, level::high, level::critical};

// A pool whose workers are known: each worker is identified by the level of the job that only it can run,
// and can be held busy and freed one at a time.
struct Pool
{
    struct Worker
    {
        tid id = 0;
        level l;
        std::unique_ptr<Gate> gate;
    };
    std::unique_ptr<tpp::thread_pool> p;
    std::vector<tid> ids;
    std::vector<Worker> workers;

    explicit Pool(const levels& l)
    {
        auto before = tpp::get_all_registered_threads();
        p = std::make_unique<tpp::thread_pool>(l);
        for(auto x : tpp::get_all_registered_threads())
            if(std::find(before.begin(), before.end(), x) == before.end())
                ids.push_back(x);
        mc::settle();
    }
    ~Pool() { p.reset(); }
    // holds every worker busy; must be called before anything else is scheduled
    void occupy(const levels& l)
    {
        for(auto& kv : l)
            for(size_t i = 0; i < kv.second; ++i)
            {
                auto g = std::make_unique<Gate>();
                auto* gp = g.get();
                mc::Var<tid> who{0};
                auto f = p->schedule(pgroup(kv.first, 1000), [gp, &who] { who = tt::get_id(); gp->pass(); });
                mc::settle();
                MC_CHECK(who != 0, "job did not start although a worker of its level is idle");
                for(auto& w : workers) MC_CHECK(w.id != who, "busy worker took another job");
                workers.push_back({who, kv.first, std::move(g)});
            }
    }
    void free_all()
    {
        for(auto& w : workers) w.gate->open();
    }
    // the workers are idle again and can be held once more
    void idle_again()
    {
        free_all();
        mc::settle();
        workers.clear();
    }
    bool is_worker(tid t) const { return std::find(ids.begin(), ids.end(), t) != ids.end(); }
    level level_of(tid t) const
    {
        for(auto& w : workers)
            if(w.id == t)
                return w.l;
        MC_CHECK(false, "job ran on thread %d which is not a worker of the pool", (int)t);
        return level::normal;
    }
    tpp::thread_pool* operator->() { return p.get(); }
};
