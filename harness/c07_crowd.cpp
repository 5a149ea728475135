#include "crowd.h"
// C07 with many threads.

SCENARIO(crowd, 0, 0, 0, 0)
{
    const int n = crowd_size;
    int kind = mc::choose(3, "kind");
    Session s;
    Gate g;
    std::vector<tid> seen;
    {
        std::vector<tpp::thread> made;
        std::unique_ptr<Crowd> c;
        if(kind == 0) for(int i = 0; i < n; ++i) made.push_back(tpp::make_thread());
        else if(kind == 1) for(int i = 0; i < n; ++i) made.emplace_back([&] { tt::register_this_thread(); g.pass(); tt::unregister_this_thread(); });
        else c = std::make_unique<Crowd>(n, [&](int) { g.pass(); });
        mc::settle();
        for(auto& t : made) seen.push_back(t.get_id());
        if(c) for(auto& i : c->ids) seen.push_back(i);
        auto all = tpp::get_all_registered_threads();
        MC_CHECK((int)all.size() == n + 1, "%d threads listed, expected %d", (int)all.size(), n + 1);
        std::sort(all.begin(), all.end());
        MC_CHECK(std::unique(all.begin(), all.end()) == all.end(), "an id is listed twice");
        for(auto i : seen) MC_CHECK(i != tpp::invalid_id() && i != tt::get_id() && std::count(all.begin(), all.end(), i) == 1, "id of a registered thread not listed");
        g.open();
        // end them one by one, every second first
        for(int k = 0; k < n && !c; ++k)
        {
            int i = k < n / 2 ? 2 * k : 2 * (k - n / 2) + 1;
            made[i].join();
            MC_CHECK(!listed(seen[i]), "joined thread listed");
            MC_CHECK(!tpp::invoke(seen[i], [] {}), "send to a joined thread accepted");
            if(kind == 0) for(int j = k + 1; j < n; ++j)
            {
                int o = j < n / 2 ? 2 * j : 2 * (j - n / 2) + 1;
                MC_CHECK(listed(seen[o]), "thread not listed although it is not joined");
            }
        }
        if(c) c->join();
    }
    MC_CHECK(tpp::get_all_registered_threads().size() == 1, "threads left");
}

// one after the other, the native id is reused all the time
SCENARIO(long_history, 0, 0, 0, 0)
{
    const int n = 28;
    int from_inside = mc::choose(2, "inside");
    Session s;
    std::vector<tid> seen;
    tid last = 0;
    for(int i = 0; i < n; ++i)
    {
        mc::Var<tid> id{0};
        mc::Count ran;
        if(last) MC_CHECK(!tpp::invoke(last, [&] { ran.add(); }), "send to a finished thread accepted");
        Raw r([&] {
            if(from_inside) tt::register_this_thread();
            else
            {
                id = tpp::register_thread(std::this_thread::get_id());
                tt::register_this_thread();
                MC_CHECK(id == tt::get_id(), "two ids for one thread");
            }
            id = tt::get_id();
            MC_CHECK(!tt::notified_for_exit(), "exit state inherited");
            tt::process();
            if(i % 3 == 1) tpp::notify_for_exit(id);
            if(i % 3 == 2) tpp::invoke(id, [&] { ran.add(); });
            tt::unregister_this_thread();
        });
        r.join();
        MC_CHECK((int)ran == 0, "task of an earlier thread was run");
        last = id;
        seen.push_back(id);
    }
    std::sort(seen.begin(), seen.end());
    MC_CHECK(std::unique(seen.begin(), seen.end()) == seen.end(), "an id was used twice");
}
