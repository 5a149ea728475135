#include "crowd.h"
#include "pool_common.h"
// C27 with many arguments and unusual sizes.

namespace
{
struct Big
{
    char c[5000];
    explicit Big(char x) { std::fill(c, c + 5000, x); }
    bool all(char x) const { return std::all_of(c, c + 5000, [x](char y) { return x == y; }); }
};
struct Aligned
{
    alignas(64) int v;
};
} // namespace

SCENARIO(many_arguments, 0, 0, 0, 0)
{
    int how = mc::choose(6, "how");
    Session s;
    auto t = tpp::make_thread();
    mc::Count ran;
    Life life;
    std::string text(100, 'x');
    {
        Tracked lvalue(life);
        auto body = [&](int a, short b, char c, double d, std::string e, std::unique_ptr<int> f, std::vector<std::string> g, Big h, Aligned i, const char* j, bool k, const Tracked& l) {
            MC_CHECK(a == 1 && b == 2 && c == 'c' && d == 4.5 && e == text && *f == 6 && g.size() == 3 && g[2] == "three", "arguments 1-7");
            MC_CHECK(h.all('h') && i.v == 9 && j == nullptr && k, "arguments 8-11");
            MC_CHECK(l.owner, "argument 12 moved from");
            ran.add();
            return a + b;
        };
        std::vector<std::string> list{"one", "two", "three"};
        const Big big('h');
        Aligned al{9};
        const char* none = nullptr;
        int one = 1;
        auto call = [&](auto&& f) { f(one, short(2), 'c', 4.5, text, std::make_unique<int>(6), list, big, al, none, true, lvalue); };
        tpp::thread_pool p(levels{{level::normal, 1}});
        tpp::future<int> f;
        switch(how)
        {
            case 0: call([&](auto&&... x) { tpp::invoke(t.get_id(), body, std::forward<decltype(x)>(x)...); }); break;
            case 1: call([&](auto&&... x) { tpp::dispatch(t.get_id(), body, std::forward<decltype(x)>(x)...); }); break;
            case 2: call([&](auto&&... x) { tpp::dispatch(tt::get_id(), body, std::forward<decltype(x)>(x)...); }); break;
            case 3: call([&](auto&&... x) { f = tpp::async(t.get_id(), body, std::forward<decltype(x)>(x)...); }); break;
            case 4: call([&](auto&&... x) { f = tpp::async(body, std::forward<decltype(x)>(x)...); }); break;
            case 5: call([&](auto&&... x) { f = p.schedule(body, std::forward<decltype(x)>(x)...); }); break;
        }
        MC_CHECK(text.size() == 100 && list.size() == 3 && list[1] == "two" && big.all('h') && one == 1 && lvalue.owner, "the caller's objects were changed");
        if(how >= 3) MC_CHECK(f.get() == 3, "result");
        mc::settle();
        MC_CHECK((int)ran == 1, "ran %d times", (int)ran);
        MC_CHECK((int)life.copied <= 1, "copied %d times", (int)life.copied);
    }
    mc::settle();
    MC_CHECK((int)life.live == 0, "%d instances left", (int)life.live);
    t.join();
}

// results of any size
SCENARIO(big_results, 0, 0, 0, 0)
{
    int how = mc::choose(4, "how");
    Session s;
    auto t = tpp::make_thread();
    tpp::thread_pool p(levels{{level::normal, 1}});
    auto make = [] { return std::make_pair(Big('r'), std::vector<std::string>(300, std::string(50, 'y'))); };
    using R = std::pair<Big, std::vector<std::string>>;
    auto check = [](const R& r) { MC_CHECK(r.first.all('r') && r.second.size() == 300 && r.second[299] == std::string(50, 'y'), "result"); };
    if(how == 0) check(tpp::async(t.get_id(), make).get());
    if(how == 1) check(p.schedule(make).get());
    if(how == 2) check(tpp::async(t.get_id(), make).share().get());
    if(how == 3) check(tpp::async(t.get_id(), make).then(tt::get_id(), [](tpp::future<R> x) { return x.get(); }).get());
    t.join();
}
