#include "crowd.h"
// C16 with many inputs.

namespace
{
template<typename Fut>
void many(int n, int order, int late)
{
    mc::max_steps(20000000);
    Session s;
    std::vector<tpp::promise<int>> p(n);
    std::vector<Fut> f;
    for(auto& x : p) f.push_back(x.get_future());
    std::vector<int> seq(n);
    for(int i = 0; i < n; ++i) seq[i] = order == 0 ? i : order == 1 ? n - 1 - i : i % 2 ? n - 1 - i / 2 : i / 2;
    auto set = [&](int k) {
        int i = seq[k];
        if(i % 7 == 3) p[i].set_exception(std::make_exception_ptr(Oops{i}));
        else p[i].set_value(int(i));
    };
    int split = late == 0 ? 0 : late == 1 ? n : n / 2; // set before the call
    for(int k = 0; k < split; ++k) set(k);
    auto all = tpp::when_all(f.begin(), f.end());
    for(int k = split; k < n; ++k)
    {
        MC_CHECK(!all.is_ready(), "ready after %d of %d inputs", k, n);
        set(k);
    }
    MC_CHECK(all.is_ready(), "not ready although all inputs are");
    auto r = all.get();
    MC_CHECK((int)r.size() == n, "%d inputs came back", (int)r.size());
    for(int i = 0; i < n; ++i)
    {
        MC_CHECK(r[i].valid() && r[i].is_ready(), "input %d", i);
        int c = get_code([&] { return (int)r[i].get(); });
        MC_CHECK(c == (i % 7 == 3 ? 1000 + i : i), "input %d came back with %d", i, c);
    }
}
} // namespace

SCENARIO(many_inputs, 0, 0, 0, 0)
{
    static const int counts[] = {4, 17, 255, 256, 257, 600, 1100};
    int n = counts[mc::choose(7, "inputs")], order = mc::choose(3, "order"), late = mc::choose(3, "late");
    if(mc::choose(2, "shared")) many<tpp::shared_future<int>>(n, order, late);
    else many<tpp::future<int>>(n, order, late);
}

// completed by many threads
SCENARIO(crowd, 0, 0, 0, 0)
{
    const int n = crowd_size;
    int by = mc::choose(2, "attached first");
    Session s;
    Gate g;
    std::vector<tpp::promise<int>> p(n);
    std::vector<tpp::future<int>> f;
    for(auto& x : p) f.push_back(x.get_future());
    Crowd c(n, [&](int i) { g.pass(); p[i].set_value(int(i)); });
    if(!by) g.open(), mc::settle();
    auto all = tpp::when_all(f.begin(), f.end());
    g.open();
    auto r = all.get();
    for(int i = 0; i < n; ++i) MC_CHECK(r[i].valid() && r[i].is_ready() && r[i].get() == i, "input %d", i);
    c.join();
}

// tuples of many
SCENARIO(long_tuple, 0, 0, 0, 0)
{
    int late = mc::choose(3, "late"), back = mc::choose(2, "order");
    Session s;
    std::vector<tpp::promise<int>> p(12);
    std::vector<tpp::future<int>> f;
    for(auto& x : p) f.push_back(x.get_future());
    auto set = [&](int k) { int i = back ? 11 - k : k; p[i].set_value(int(i)); };
    int split = late * 6;
    for(int k = 0; k < split; ++k) set(k);
    auto all = tpp::when_all(f[0], std::move(f[1]), f[2].share(), f[3], f[4], f[5].share(), f[6], f[7], f[8], f[9], f[10], f[11]);
    for(int k = split; k < 12; ++k)
    {
        MC_CHECK(!all.is_ready(), "ready after %d inputs", k);
        set(k);
    }
    MC_CHECK(all.is_ready(), "not ready");
    auto r = all.get();
    int i = 0;
    auto one = [&](auto& x) { MC_CHECK(x.valid() && x.is_ready() && x.get() == i, "input %d", i); ++i; };
    std::apply([&](auto&... x) { (one(x), ...); }, r);
}
