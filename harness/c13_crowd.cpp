#include "crowd.h"
// C13 with many results.

SCENARIO(many, 0, 0, 0, 0)
{
    static const int counts[] = {3, 20, 300};
    int n = counts[mc::choose(3, "results")], how = mc::choose(4, "how");
    Session s;
    std::vector<tpp::future<int>> f;
    std::vector<tpp::promise<int>> p(how == 3 ? n : 0);
    mc::Count after, ran;
    Gate go;
    std::unique_ptr<tpp::thread_pool> pool;
    auto t = tpp::make_thread();
    std::vector<tpp::future<void>> then;
    if(how < 2) tpp::invoke(t.get_id(), [&] { go.pass(); });
    if(how == 2)
    {
        pool = std::make_unique<tpp::thread_pool>(std::map<tpp::priority::category, size_t>{{tpp::priority::category::normal, 1}});
        pool->schedule([&] { go.pass(); });
    }
    mc::settle();
    for(int i = 0; i < n; ++i)
    {
        if(how == 0) f.push_back(tpp::async(t.get_id(), [&] { ran.add(); return 1; }));
        else if(how == 1)
        {
            tpp::promise<void> q;
            q.set_value();
            f.push_back(q.get_future().then(t.get_id(), [&](tpp::future<void>) { ran.add(); return 1; }));
        }
        else if(how == 2) f.push_back(static_cast<tpp::future<int>&&>(pool->schedule([&] { ran.add(); return 1; })));
        else f.push_back(p[i].get_future());
        if(i % 2)
        {
            auto sh = f.back().share();
            then.push_back(sh.then(tpp::caller_id(), [&](tpp::shared_future<int> x) {
                MC_CHECK(get_code([&] { return (int)x.get(); }) == -2, "continuation of a broken result");
                after.add();
            }));
            f.back() = tpp::future<int>();
        }
    }
    for(auto& x : f) MC_CHECK(!x.valid() || !x.is_ready(), "ready before it was abandoned");
    if(how < 2)
    {
        tpp::notify_for_exit(t.get_id());
        go.open();
        t.join();
    }
    else if(how == 2)
    {
        pool->stop_all();
        go.open();
        pool.reset();
    }
    else p.clear();
    mc::settle();
    MC_CHECK((int)ran == 0, "an abandoned task ran");
    for(auto& x : f)
        if(x.valid())
        {
            MC_CHECK(x.is_ready() && x.has_error(), "abandoned result not reported");
            MC_CHECK(get_code([&] { return x.get(); }) == -2, "not a broken promise");
        }
    // the continuations belong to whoever abandoned the result: this thread, or the ended one
    if(how >= 2) MC_CHECK((int)after == n / 2, "%d of %d continuations ran", (int)after, n / 2);
    for(auto& x : then) MC_CHECK(x.is_ready(), "result of a continuation not ready");
}
