#include "crowd.h"
// C17 with many inputs.

namespace
{
template<typename Fut>
void many(int n, int first, int before)
{
    mc::max_steps(20000000);
    Session s;
    std::vector<tpp::promise<int>> p(n);
    std::vector<Fut> f;
    for(auto& x : p) f.push_back(x.get_future());
    auto set = [&](int i) {
        if(i % 7 == 3) p[i].set_exception(std::make_exception_ptr(Oops{i}));
        else p[i].set_value(int(i));
    };
    if(before) set(first);
    auto any = tpp::when_any(f.begin(), f.end());
    if(!before)
    {
        MC_CHECK(!any.is_ready(), "ready although no input is");
        set(first);
    }
    MC_CHECK(any.is_ready(), "not ready although input %d of %d is", first, n);
    auto r = any.get();
    MC_CHECK((int)r.index == first, "names input %d, ready is %d", (int)r.index, first);
    MC_CHECK((int)r.futures.size() == n, "%d inputs came back", (int)r.futures.size());
    for(int i = 0; i < n; ++i) MC_CHECK(r.futures[i].valid() && r.futures[i].is_ready() == (i == first), "input %d", i);
    for(int i = 0; i < n; ++i)
    {
        if(i != first) set(i);
        int c = get_code([&] { return (int)r.futures[i].get(); });
        MC_CHECK(c == (i % 7 == 3 ? 1000 + i : i), "input %d came back with %d", i, c);
    }
}
} // namespace

SCENARIO(many_inputs, 0, 0, 0, 0)
{
    static const int counts[] = {4, 17, 255, 256, 257, 600, 1100};
    int n = counts[mc::choose(7, "inputs")], w = mc::choose(5, "which"), before = mc::choose(2, "before");
    int first = w == 0 ? 0 : w == 1 ? 3 : w == 2 ? n / 2 : w == 3 ? n - 2 : n - 1;
    if(mc::choose(2, "shared")) many<tpp::shared_future<int>>(n, first, before);
    else many<tpp::future<int>>(n, first, before);
}

// completed by many threads
SCENARIO(crowd, 0, 0, 0, 0)
{
    const int n = crowd_size;
    int by = mc::choose(2, "attached first");
    Session s;
    Gate g;
    std::vector<tpp::promise<int>> p(n);
    std::vector<tpp::future<int>> f;
    for(auto& x : p) f.push_back(x.get_future());
    Crowd c(n, [&](int i) { g.pass(); p[i].set_value(int(i)); });
    if(!by) g.open(), mc::settle();
    auto any = tpp::when_any(f.begin(), f.end());
    g.open();
    auto r = any.get();
    MC_CHECK(r.index < n && r.futures[r.index].is_ready(), "input %d", (int)r.index);
    for(int i = 0; i < n; ++i) MC_CHECK(r.futures[i].valid() && r.futures[i].get() == i, "input %d", i);
    c.join();
}

// tuples of many
SCENARIO(long_tuple, 0, 0, 0, 0)
{
    int first = mc::choose(12, "first"), before = mc::choose(2, "before");
    Session s;
    std::vector<tpp::promise<int>> p(12);
    std::vector<tpp::future<int>> f;
    for(auto& x : p) f.push_back(x.get_future());
    if(before) p[first].set_value(int(first));
    auto any = tpp::when_any(f[0], std::move(f[1]), f[2].share(), f[3], f[4], f[5].share(), f[6], f[7], f[8], f[9], f[10], f[11]);
    if(!before)
    {
        MC_CHECK(!any.is_ready(), "ready although no input is");
        p[first].set_value(int(first));
    }
    MC_CHECK(any.is_ready(), "not ready");
    auto r = any.get();
    MC_CHECK((int)r.index == first, "names input %d, ready is %d", (int)r.index, first);
    for(int i = 0; i < 12; ++i) if(i != first) p[i].set_value(int(i));
    int i = 0;
    auto one = [&](auto& x) { MC_CHECK(x.valid() && x.is_ready() && x.get() == i, "input %d", i); ++i; };
    std::apply([&](auto&... x) { (one(x), ...); }, r.futures);
}
