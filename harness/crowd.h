// Many threads at once: the same statements at sizes no interleaving search reaches. One schedule each.
#pragma once
#include "common.h"

constexpr int crowd_size = 24;

struct Crowd // registered threads of the test program
{
    std::vector<std::unique_ptr<Raw>> t;
    std::vector<mc::Var<tid>> ids;
    mc::Count arrived, left;
    template<typename F>
    Crowd(int n, F f) : ids(n)
    {
        for(int i = 0; i < n; ++i)
            t.push_back(std::make_unique<Raw>([this, i, f] {
                tt::register_this_thread();
                ids[i] = tt::get_id();
                arrived.add();
                f(i);
                left.add();
                tt::unregister_this_thread();
            }));
        mc::settle();
        MC_CHECK((int)arrived == n, "%d of %d threads started", (int)arrived, n);
    }
    void join() { t.clear(); }
};
