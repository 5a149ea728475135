#include "pool_common.h"
#include "when_common.h"
// C16: when_all is ready exactly when all inputs are, and returns them intact.

// who calls when_all and consumes the result: the main thread, a worker, or a thread unknown to the library
template<typename Call>
static void run(Inputs& in, int caller, bool backwards, Call&& call)
{
    auto consume = [&](auto r) {
        MC_CHECK(r.valid(), "result future");
        if(caller == 2) while(!r.is_ready()) std::this_thread::yield(); // unknown threads cannot block in the library
        else r.wait();
        MC_CHECK(r.is_ready() && !r.has_error(), "result ready");
        MC_CHECK(in.all_set(), "ready before all inputs were");
        auto v = r.get();
        int count = 0;
        each(v, [&](auto& x, int i) { in.check_value(x, i); ++count; });
        MC_CHECK(count == in.n, "%d futures came back", count);
    };
    if(caller == 1)
    {
        auto t = tpp::make_thread("T");
        mc::settle();
        Explore e;
        Raw b([&] { in.set_by(Inputs::by_b, backwards); });
        auto done = tpp::async(t.get_id(), [&] { consume(call()); });
        in.set_by(Inputs::by_a);
        done.get();
    }
    else if(caller == 2)
    {
        Explore e;
        Raw b([&] { in.set_by(Inputs::by_b, backwards); });
        Raw c([&] { consume(call()); });
        in.set_by(Inputs::by_a);
    }
    else
    {
        Explore e;
        Raw a([&] { in.set_by(Inputs::by_a); });
        Raw b([&] { in.set_by(Inputs::by_b, backwards); });
        consume(call());
    }
}

SCENARIO(range_two, 2, 3, 0, 0)
{
    Session s;
    Inputs in(2);
    in.choose();
    bool shared = mc::choose(2, "shared");
    int caller = mc::choose(3, "caller");
    in.open(shared);
    if(shared) run(in, caller, true, [&] { return tpp::when_all(in.sf.begin(), in.sf.end()); });
    else run(in, caller, true, [&] { return tpp::when_all(in.f.begin(), in.f.end()); });
    for(auto& x : in.sf) MC_CHECK(x.valid() == shared, "shared inputs of the caller stay valid");
    for(auto& x : in.f) MC_CHECK(!x.valid(), "unique inputs are taken");
}
SCENARIO(tuple_two, 2, 3, 0, 0)
{
    Session s;
    Inputs in(2);
    in.choose();
    int kinds = mc::choose(3, "kinds"); // unique, shared, mixed
    int caller = mc::choose(3, "caller");
    in.open(kinds == 1);
    if(kinds == 2) in.sf[1] = in.f[1].share();
    if(kinds == 0) run(in, caller, true, [&] { return tpp::when_all(std::move(in.f[0]), in.f[1]); });
    else if(kinds == 1) run(in, caller, true, [&] { return tpp::when_all(in.sf[0], std::move(in.sf[1])); });
    else run(in, caller, true, [&] { return tpp::when_all(in.f[0], in.sf[1]); });
    if(kinds == 1) MC_CHECK(in.sf[0].valid(), "shared lvalue stays valid");
    if(kinds == 2) MC_CHECK(in.sf[1].valid(), "shared lvalue stays valid");
}
SCENARIO(range_three, 1, 2, 0, 0)
{
    Session s;
    Inputs in(3);
    for(int i = 0; i < 3; ++i) { in.mode[i] = mc::choose(Inputs::n_modes, "mode"); }
    int e = mc::choose(4, "error");
    if(e < 3) in.err[e] = 1;
    bool shared = mc::choose(2, "shared");
    int caller = mc::choose(3, "caller");
    in.open(shared);
    if(shared) run(in, caller, true, [&] { return tpp::when_all(in.sf.begin(), in.sf.end()); });
    else run(in, caller, true, [&] { return tpp::when_all(in.f.begin(), in.f.end()); });
}
SCENARIO(tuple_three, 1, 2, 0, 0)
{
    Session s;
    Inputs in(3);
    for(int i = 0; i < 3; ++i) { in.mode[i] = mc::choose(Inputs::n_modes, "mode"); }
    int e = mc::choose(4, "error");
    if(e < 3) in.err[e] = 1;
    bool shared = mc::choose(2, "shared");
    int caller = mc::choose(3, "caller");
    in.open(shared);
    if(shared) run(in, caller, true, [&] { return tpp::when_all(in.sf[0], in.sf[1], in.sf[2]); });
    else run(in, caller, true, [&] { return tpp::when_all(in.f[0], in.f[1], in.f[2]); });
}

// the result is not ready while one input is missing, whatever is missing
SCENARIO(not_early, 6, 7, 0, 0)
{
    int missing = mc::choose(3, "missing"), form = mc::choose(4, "form");
    Session s;
    Inputs in(3);
    for(int i = 0; i < 3; ++i) { in.mode[i] = i == missing ? 99 : mc::choose(Inputs::n_modes, "mode"); }
    in.open(form & 1);
    auto go = [&](auto r) {
        {
            Explore e;
            Raw a([&] { in.set_by(Inputs::by_a); });
            Raw b([&] { in.set_by(Inputs::by_b, true); });
            tt::process();
        }
        tt::process();
        MC_CHECK(!r.is_ready(), "ready although input %d is not", missing);
        MC_CHECK(r.wait_for(1ms) == std::future_status::timeout, "ready although input %d is not", missing);
        in.set(missing);
        MC_CHECK(r.wait_for(0s) == std::future_status::ready || (tt::process(), r.is_ready()), "not ready after all inputs are");
        auto v = r.get();
        each(v, [&](auto& x, int i) { in.check_value(x, i); });
    };
    if(form == 0) go(tpp::when_all(in.f.begin(), in.f.end()));
    else if(form == 1) go(tpp::when_all(in.sf.begin(), in.sf.end()));
    else if(form == 2) go(tpp::when_all(in.f[0], in.f[1], in.f[2]));
    else go(tpp::when_all(in.sf[0], in.sf[1], in.sf[2]));
}

// every kind of range
namespace
{
template<typename T>
void ranges(Inputs& in, std::vector<T>& v, int kind)
{
    auto r = as_range(kind, v, [](auto a, auto b) { return tpp::when_all(a, b); });
    for(int i = 0; i < in.n; ++i)
    {
        if(in.set_[i]) continue;
        tt::process();
        MC_CHECK(!r.is_ready(), "ready before input %d", i);
        in.set(i);
    }
    tt::process();
    MC_CHECK(r.valid() && r.is_ready() && !r.has_error(), "not ready although all inputs are");
    auto got = r.get();
    MC_CHECK((int)got.size() == in.n, "%d inputs came back", (int)got.size());
    bool reversed = kind == r_const && !std::is_copy_constructible<T>::value;
    for(int i = 0; i < in.n; ++i) in.check_value(got[reversed ? in.n - 1 - i : i], i);
}
} // namespace
SCENARIO(any_range, 0, 0, 0, 0)
{
    int n = mc::choose(4, "inputs"), kind = mc::choose(n_ranges, "range"), early = mc::choose(3, "ready before"), shared = mc::choose(2, "shared"), err = mc::choose(2, "error");
    Session s;
    Inputs in(n);
    for(int i = 0; i < n; ++i)
    {
        in.mode[i] = early == 1 || (early == 2 && i == n - 1) ? Inputs::ready_before : 99;
        in.err[i] = err && i % 2 == 0;
    }
    in.open(shared);
    if(shared) ranges(in, in.sf, kind);
    else ranges(in, in.f, kind);
}

// futures of pool jobs as inputs, run, failed or stopped
SCENARIO(jobs, 3, 4, 0, 0)
{
    int form = mc::choose(2, "form"), fails = mc::choose(3, "fails"), stopped = mc::choose(3, "stopped");
    Session s;
    Pool p({{level::normal, 1}});
    if(stopped < 2) p.occupy({{level::normal, 1}});
    auto job = [&](int i) {
        return p->schedule([i, fails] {
            if(i == fails) throw Oops{i};
            return 10 + i;
        });
    };
    auto expected = [&](int i) { return i == stopped ? -2 : i == fails ? 1000 + i : 10 + i; };
    {
        Explore e;
        auto a = job(0), b = job(1);
        if(stopped == 0) a.stop();
        if(stopped == 1) b.stop();
        p.free_all();
        if(form == 0)
        {
            auto r = tpp::when_all(std::move(a), std::move(b)).get();
            MC_CHECK(get_code([&] { return std::get<0>(r).get(); }) == expected(0) && get_code([&] { return std::get<1>(r).get(); }) == expected(1), "inputs");
        }
        else
        {
            std::vector<tpp::job_future<int>> v;
            v.push_back(std::move(a));
            v.push_back(std::move(b));
            auto r = tpp::when_all(v.begin(), v.end()).get();
            MC_CHECK(r.size() == 2, "%d inputs came back", (int)r.size());
            for(int i = 0; i < 2; ++i) MC_CHECK(get_code([&] { return r[i].get(); }) == expected(i), "input %d", i);
        }
    }
}

// no inputs, one input, the same shared input twice, abandoned input, void inputs, nested
SCENARIO(special, 5, 6, 0, 0)
{
    int kase = mc::choose(6, "case");
    Session s;
    auto me = tt::get_id();
    if(kase == 0)
    {
        auto r = tpp::when_all();
        MC_CHECK(r.valid() && r.is_ready() && !r.has_error(), "empty tuple");
        r.get();
        std::vector<tpp::future<int>> none;
        auto q = tpp::when_all(none.begin(), none.end());
        MC_CHECK(q.is_ready() && q.get().empty(), "empty range");
        std::vector<tpp::shared_future<void>> none2;
        auto z = tpp::when_all(none2.begin(), none2.end());
        MC_CHECK(z.is_ready() && z.get().empty(), "empty range");
    }
    else if(kase == 1)
    {
        tpp::promise<int> p;
        Explore e;
        Raw r([&] { p.set_value(3); });
        auto v = tpp::when_all(p.get_future()).get();
        MC_CHECK(std::get<0>(v).get() == 3, "single");
    }
    else if(kase == 2)
    {
        tpp::promise<int> p;
        auto sf = p.get_future().share();
        Explore e;
        Raw r([&] { p.set_value(3); });
        auto v = tpp::when_all(sf, sf).get();
        MC_CHECK(std::get<0>(v).get() == 3 && std::get<1>(v).get() == 3, "same twice");
    }
    else if(kase == 3)
    {
        auto p = std::make_unique<tpp::promise<int>>();
        tpp::promise<void> q;
        auto f = p->get_future();
        auto g = q.get_future();
        Explore e;
        Raw r([&] { p.reset(); q.set_value(); });
        auto v = tpp::when_all(f, g).get();
        MC_CHECK(get_code([&] { return std::get<0>(v).get(); }) == -2, "abandoned input");
        MC_CHECK(get_code([&] { std::get<1>(v).get(); return 1; }) == 1, "void input");
    }
    else if(kase == 4)
    {
        tpp::promise<int> p, q, z;
        Explore e;
        Raw r([&] { p.set_value(1); z.set_value(3); });
        Raw r2([&] { q.set_value(2); });
        auto inner = tpp::when_all(p.get_future(), q.get_future());
        auto outer = tpp::when_all(std::move(inner), z.get_future());
        auto v = outer.get();
        MC_CHECK(std::get<0>(v).is_ready() && std::get<1>(v).is_ready(), "nested");
        auto w = std::get<0>(v).get();
        MC_CHECK(std::get<0>(w).get() == 1 && std::get<1>(w).get() == 2 && std::get<1>(v).get() == 3, "nested values");
    }
    else
    {
        // continuation on the result, inputs produced by a worker
        auto t = tpp::make_thread("T");
        mc::settle();
        Explore e;
        std::vector<tpp::future<int>> f;
        for(int i = 0; i < 2; ++i) f.push_back(tpp::async(t.get_id(), [i] { return i; }));
        int sum = tpp::when_all(f.begin(), f.end()).then(me, [](auto r) {
            auto v = r.get();
            return v[0].get() + 10 * v[1].get();
        }).get();
        MC_CHECK(sum == 10, "sum %d", sum);
    }
}
