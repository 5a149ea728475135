#include "crowd.h"
// C11 for every type of exception and many holders.

SCENARIO(any_exception, 0, 0, 0, 0)
{
    int k = mc::choose(n_exceptions, "exception"), how = mc::choose(3, "how"), v = mc::choose(2, "void"), shared = mc::choose(2, "shared");
    Session s;
    std::exception_ptr e;
    try { throw_number(k); } catch(...) { e = std::current_exception(); }
    auto check = [&](auto f) {
        MC_CHECK(f.valid() && f.is_ready() && f.has_error(), "state");
        if(shared)
        {
            auto g = f.share();
            auto h = g;
            for(int i = 0; i < 3; ++i)
            {
                int r = thrown_number([&] { (i % 2 ? g : h).get(); });
                MC_CHECK(r == k, "exception %d came out as %d", k, r);
            }
        }
        else
        {
            int r = thrown_number([&] { f.get(); });
            MC_CHECK(r == k, "exception %d came out as %d", k, r);
            MC_CHECK(!f.valid(), "still valid");
        }
    };
    auto with = [&](auto type) {
        using T = typename decltype(type)::type;
        if(how == 0)
        {
            tpp::promise<T> p;
            auto f = p.get_future();
            p.set_exception(e);
            check(std::move(f));
        }
        else if(how == 1) check(tpp::make_exceptional_future<T>(e));
        else
            switch(k)
            {
                case 0: check(tpp::make_exceptional_future<T>(Oops{0})); break;
                case 1: check(tpp::make_exceptional_future<T>(17)); break;
                case 2: check(tpp::make_exceptional_future<T>(Derived())); break;
                case 3: check(tpp::make_exceptional_future<T>(Unrelated())); break;
                case 4: check(tpp::make_exceptional_future<T>(std::future_error(std::future_errc::broken_promise))); break;
                case 5: check(tpp::make_exceptional_future<T>(std::future_error(std::future_errc::promise_already_satisfied))); break;
                case 6: check(tpp::make_exceptional_future<T>(std::system_error(std::make_error_code(std::errc::no_lock_available)))); break;
                case 7: check(tpp::make_exceptional_future<T>(std::bad_alloc())); break;
                default: break;
            }
    };
    if(v) with(std::common_type<void>());
    else with(std::common_type<int>());
}

// every holder gets the very same object
SCENARIO(crowd, 0, 0, 0, 0)
{
    const int n = crowd_size;
    int before = mc::choose(2, "set before"), copies = mc::choose(2, "copies");
    Session s;
    tpp::promise<std::vector<int>> p;
    auto f = p.get_future().share();
    std::vector<int> value(1000);
    for(int i = 0; i < 1000; ++i) value[i] = i;
    if(before) p.set_value(value);
    std::vector<mc::Var<const void*>> where(n);
    Crowd c(n, [&](int i) {
        auto g = f;
        if(copies) for(int j = 0; j < 20; ++j) { auto h = g; g = h; }
        auto& v = g.get();
        MC_CHECK(v.size() == 1000 && v[i] == i && v[999] == 999, "value");
        where[i] = &v;
    });
    if(!before) p.set_value(value);
    mc::settle();
    MC_CHECK((int)c.left == n, "%d of %d holders got the value", (int)c.left, n);
    c.join();
    for(auto& w : where) MC_CHECK(w.get() == &f.get(), "a holder got another object");
    MC_CHECK(value.size() == 1000, "the caller's value was taken");
    MC_CHECK(get_code([&] { p.set_value(value); return 0; }) == -5, "second set");
}
