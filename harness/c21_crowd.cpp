#include "crowd.h"
#include "pool_common.h"
// C21 with many jobs and extreme priorities.

namespace
{
bool higher(pgroup a, pgroup b) { return a.level != b.level ? a.level > b.level : a.priority > b.priority; }
const size_t prio[] = {0, 1, 127, 128, 255, 256, 65535, 65536, (size_t(1) << 31) - 1, size_t(1) << 31, (size_t(1) << 32) - 1, size_t(1) << 32, size_t(1) << 63, size_t(-2), size_t(-1)};
constexpr int n_prio = sizeof prio / sizeof *prio;
pgroup named(int l, size_t p) { return l == 0 ? tpp::priority::normal(p) : l == 1 ? tpp::priority::high(p) : tpp::priority::critical(p); }
} // namespace

// any two groups
SCENARIO(any_two, 0, 0, 0, 0)
{
    int la = mc::choose(3, "level"), pa = mc::choose(n_prio, "priority"), lb = mc::choose(3, "level"), pb = mc::choose(n_prio, "priority"), change = mc::choose(3, "change");
    Session s;
    levels ls{{level::normal, 1}};
    Pool p(ls);
    p.occupy(ls);
    std::vector<int> seq;
    auto ga = named(la, prio[pa]), gb = named(lb, prio[pb]);
    auto first = change == 1 ? named((la + 1) % 3, 5) : change == 2 ? named(la, prio[pa] ^ (size_t(1) << 40)) : ga;
    auto a = p->schedule(first, [&] { seq.push_back(0); });
    auto b = p->schedule(gb, [&] { seq.push_back(1); });
    if(change) a.change_priority(ga);
    p.free_all();
    p->wait_all();
    MC_CHECK(seq.size() == 2, "%d jobs ran", (int)seq.size());
    if(higher(ga, gb)) MC_CHECK(seq[0] == 0, "lower job taken first");
    if(higher(gb, ga)) MC_CHECK(seq[0] == 1, "lower job taken first");
}

// many jobs, many changes
SCENARIO(many, 0, 0, 0, 0)
{
    static const int counts[] = {10, 40, 300, 1500};
    int n = counts[mc::choose(4, "jobs")], pattern = mc::choose(4, "pattern"), changes = mc::choose(4, "changes");
    mc::max_steps(20000000);
    Session s;
    levels ls{{level::normal, 1}};
    Pool p(ls);
    p.occupy(ls);
    std::vector<int> seq;
    std::vector<pgroup> g(n);
    std::vector<tpp::job_future<void>> f;
    auto group = [&](int i) {
        switch(pattern)
        {
            case 0: return named(0, i);
            case 1: return named(0, n - i);
            case 2: return named(i % 3, (i * 37) % 101);
            default: return named((i / 2) % 3, i % 2);
        }
    };
    for(int i = 0; i < n; ++i)
    {
        g[i] = group(i);
        f.push_back(p->schedule(g[i], [&, i] { seq.push_back(i); }));
    }
    for(int c = 0; c < changes; ++c)
        for(int i = c; i < n; i += 3)
        {
            g[i] = c == 0 ? named((i / 3) % 3, n - i) : c == 1 ? group(n - 1 - i) : group(i);
            if(i % 2) f[i].change_priority(g[i]);
            else p->change_priority(f[i].id, g[i]);
        }
    p.free_all();
    p->wait_all();
    MC_CHECK((int)seq.size() == n, "%d of %d jobs ran", (int)seq.size(), n);
    for(int k = 1; k < n; ++k) MC_CHECK(!higher(g[seq[k]], g[seq[k - 1]]), "job %d taken before job %d", seq[k - 1], seq[k]);
}
