#include "crowd.h"
// C15 with many at once.

SCENARIO(crowd, 0, 0, 0, 0)
{
    const int n = crowd_size;
    int kind = mc::choose(3, "kind"), error = mc::choose(2, "error");
    Session s;
    Gate g;
    std::vector<Probe> probe(n);
    std::vector<tpp::future<int>> f;
    auto before = tpp::get_all_registered_threads().size();
    for(int i = 0; i < n; ++i)
    {
        auto work = [&, i] {
            probe[i].hit();
            g.pass();
            if(error) throw Oops{i};
            return i;
        };
        if(kind == 0) f.push_back(tpp::async(work));
        else if(kind == 1) f.push_back(tpp::async(std::launch::async, work));
        else
        {
            tpp::promise<int> p;
            f.push_back(p.get_future().then([work](tpp::future<int> x) { x.get(); return work(); }));
            p.set_value(1);
        }
    }
    mc::settle();
    auto all = tpp::get_all_registered_threads();
    MC_CHECK(all.size() == before + n, "%d fresh threads registered, expected %d", (int)(all.size() - before), n);
    std::vector<tid> where;
    for(int i = 0; i < n; ++i)
    {
        MC_CHECK((int)probe[i].runs == 1 && probe[i].where != tt::get_id() && probe[i].where != tpp::invalid_id(), "function %d", i);
        MC_CHECK(listed(probe[i].where), "fresh thread not registered while it runs the function");
        MC_CHECK(!f[i].is_ready(), "ready before the function returned");
        where.push_back(probe[i].where);
    }
    std::sort(where.begin(), where.end());
    MC_CHECK(std::unique(where.begin(), where.end()) == where.end(), "two functions on one thread");
    g.open();
    for(int i = 0; i < n; ++i)
    {
        int c = get_code([&] { return f[i].get(); });
        MC_CHECK(c == (error ? 1000 + i : i), "function %d delivered %d", i, c);
    }
    mc::settle();
    MC_CHECK(tpp::get_all_registered_threads().size() == before, "fresh threads left registered");
}

SCENARIO(one_after_the_other, 0, 0, 0, 0)
{
    int kind = mc::choose(2, "kind");
    Session s;
    for(int i = 0; i < 28; ++i)
    {
        auto f = kind ? tpp::async([i] { return i; }) : tpp::make_ready_future(int(i)).then([](tpp::future<int> x) { return x.get(); });
        MC_CHECK(f.get() == i, "result");
        mc::settle();
        MC_CHECK(tpp::get_all_registered_threads().size() == 1, "fresh thread left registered");
    }
}

// whatever the function throws comes out of the future
SCENARIO(any_exception, 0, 0, 0, 0)
{
    int k = mc::choose(n_exceptions, "exception"), how = mc::choose(6, "how"), v = mc::choose(2, "void");
    Session s;
    auto t = tpp::make_thread();
    auto fv = [k] { throw_number(k); };
    auto fi = [k] { throw_number(k); return 1; };
    auto policy = how % 2 ? std::launch::async : std::launch::deferred;
    tpp::future<void> a;
    tpp::future<int> b;
    if(how < 2) v ? a = tpp::async(t.get_id(), policy, fv), 0 : (b = tpp::async(t.get_id(), policy, fi), 0);
    else if(how < 4) v ? a = tpp::async(tt::get_id(), policy, fv), 0 : (b = tpp::async(tt::get_id(), policy, fi), 0);
    else v ? a = tpp::async(policy, fv), 0 : (b = tpp::async(policy, fi), 0);
    if(how == 3) tt::process();
    int r = v ? thrown_number([&] { a.get(); }) : thrown_number([&] { b.get(); });
    MC_CHECK(r == k, "exception %d came out as %d", k, r);
    t.join();
}
