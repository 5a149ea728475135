#include "crowd.h"
// C01 with many threads.

// everybody sends to everybody
SCENARIO(crowd, 0, 0, 0, 0)
{
    const int n = crowd_size, k = 1 + mc::choose(3, "tasks");
    Session s;
    std::vector<tpp::thread> target;
    for(int i = 0; i < n / 2; ++i) target.push_back(tpp::make_thread());
    std::vector<Probe> probe(n / 2 * target.size() * k);
    {
        Crowd c(n / 2, [&](int me) {
            for(int j = 0; j < k; ++j)
                for(size_t to = 0; to < target.size(); ++to)
                    MC_CHECK(tpp::invoke(target[to].get_id(), [p = &probe[(me * target.size() + to) * k + j]] { p->hit(); }), "refused");
        });
        c.join();
    }
    mc::settle();
    for(int me = 0; me < n / 2; ++me)
        for(size_t to = 0; to < target.size(); ++to)
            for(int j = 0; j < k; ++j) probe[(me * target.size() + to) * k + j].expect("task", 1, target[to].get_id());
    for(auto& t : target) t.join();
}
