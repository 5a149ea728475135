#include "pool_common.h"
#include "when_common.h"
// C17: when_any names a ready input and keeps all inputs usable.

template<typename Call>
static void run(Inputs& in, int caller, bool backwards, Call&& call)
{
    auto consume = [&](auto r) {
        if(caller == 2) while(!r.is_ready()) std::this_thread::yield();
        else r.wait();
        MC_CHECK(r.is_ready() && !r.has_error(), "result ready");
        auto v = r.get();
        MC_CHECK(v.index < (size_t)in.n, "index %d", (int)v.index);
        MC_CHECK(in.set_[v.index], "index %d denotes an input that is not ready", (int)v.index);
        int count = 0;
        each(v.futures, [&](auto& x, int i) {
            MC_CHECK(x.valid(), "input %d came back invalid", i);
            if((size_t)i == v.index) in.check_value(x, i);
            ++count;
        });
        MC_CHECK(count == in.n, "%d futures came back", count);
        // the others deliver now or later
        each(v.futures, [&](auto& x, int i) {
            if((size_t)i == v.index) return;
            if(caller == 2) while(!x.is_ready()) std::this_thread::yield();
            else x.wait();
            MC_CHECK(in.set_[i], "input %d ready before it was set", i);
            in.check_value(x, i);
        });
    };
    if(caller == 1)
    {
        auto t = tpp::make_thread("T");
        mc::settle();
        Explore e;
        Raw b([&] { in.set_by(Inputs::by_b, backwards); });
        auto done = tpp::async(t.get_id(), [&] { consume(call()); });
        in.set_by(Inputs::by_a);
        done.get();
    }
    else if(caller == 2)
    {
        Explore e;
        Raw b([&] { in.set_by(Inputs::by_b, backwards); });
        Raw c([&] { consume(call()); });
        in.set_by(Inputs::by_a);
    }
    else
    {
        Explore e;
        Raw a([&] { in.set_by(Inputs::by_a); });
        Raw b([&] { in.set_by(Inputs::by_b, backwards); });
        consume(call());
    }
}

SCENARIO(range_two, 2, 3, 0, 0)
{
    Session s;
    Inputs in(2);
    in.choose();
    bool shared = mc::choose(2, "shared");
    int caller = mc::choose(3, "caller");
    in.open(shared);
    if(shared) run(in, caller, true, [&] { return tpp::when_any(in.sf.begin(), in.sf.end()); });
    else run(in, caller, true, [&] { return tpp::when_any(in.f.begin(), in.f.end()); });
}
SCENARIO(tuple_two, 2, 3, 0, 0)
{
    Session s;
    Inputs in(2);
    in.choose();
    int kinds = mc::choose(3, "kinds");
    int caller = mc::choose(3, "caller");
    in.open(kinds == 1);
    if(kinds == 2) in.sf[1] = in.f[1].share();
    if(kinds == 0) run(in, caller, true, [&] { return tpp::when_any(std::move(in.f[0]), in.f[1]); });
    else if(kinds == 1) run(in, caller, true, [&] { return tpp::when_any(in.sf[0], std::move(in.sf[1])); });
    else run(in, caller, true, [&] { return tpp::when_any(in.f[0], in.sf[1]); });
}
SCENARIO(range_three, 1, 2, 0, 0)
{
    Session s;
    Inputs in(3);
    for(int i = 0; i < 3; ++i) { in.mode[i] = mc::choose(Inputs::n_modes, "mode"); }
    int e = mc::choose(4, "error");
    if(e < 3) in.err[e] = 1;
    bool shared = mc::choose(2, "shared");
    int caller = mc::choose(3, "caller");
    in.open(shared);
    if(shared) run(in, caller, true, [&] { return tpp::when_any(in.sf.begin(), in.sf.end()); });
    else run(in, caller, true, [&] { return tpp::when_any(in.f.begin(), in.f.end()); });
}
SCENARIO(tuple_three, 1, 2, 0, 0)
{
    Session s;
    Inputs in(3);
    for(int i = 0; i < 3; ++i) { in.mode[i] = mc::choose(Inputs::n_modes, "mode"); }
    int e = mc::choose(4, "error");
    if(e < 3) in.err[e] = 1;
    bool shared = mc::choose(2, "shared");
    int caller = mc::choose(3, "caller");
    in.open(shared);
    if(shared) run(in, caller, true, [&] { return tpp::when_any(in.sf[0], in.sf[1], in.sf[2]); });
    else run(in, caller, true, [&] { return tpp::when_any(in.f[0], in.f[1], in.f[2]); });
}

// one input is enough: the result must not wait for the others, nor come before any
SCENARIO(one_is_enough, 3, 4, 0, 0)
{
    int first = mc::choose(3, "first"), form = mc::choose(4, "form"), err = mc::choose(2, "error");
    int when = mc::choose(3, "when"); // before the call, during the wait by another thread, by the caller
    Session s;
    Inputs in(3);
    for(int i = 0; i < 3; ++i) in.mode[i] = 99;
    in.err[first] = err;
    in.open(form & 1);
    auto go = [&](auto&& make) {
        Explore e;
        if(when == 0) in.set(first);
        auto r = make();
        if(when != 0)
        {
            tt::process();
            MC_CHECK(!r.is_ready(), "ready although no input is");
        }
        {
            std::unique_ptr<Raw> a;
            if(when == 1) a = std::make_unique<Raw>([&] { in.set(first); });
            else if(when == 2) in.set(first);
            auto v = r.get();
            MC_CHECK(v.index == (size_t)first, "index %d, expected %d", (int)v.index, first);
            each(v.futures, [&](auto& x, int i) {
                MC_CHECK(x.valid(), "input %d invalid", i);
                MC_CHECK(x.is_ready() == (i == first), "readiness of input %d", i);
            });
            a.reset();
            // later completions still arrive
            Raw b([&] { for(int i = 0; i < 3; ++i) if(i != first) in.set(i); });
            each(v.futures, [&](auto& x, int i) { x.wait(); in.check_value(x, i); });
        }
    };
    if(form == 0) go([&] { return tpp::when_any(in.f.begin(), in.f.end()); });
    else if(form == 1) go([&] { return tpp::when_any(in.sf.begin(), in.sf.end()); });
    else if(form == 2) go([&] { return tpp::when_any(in.f[0], in.f[1], in.f[2]); });
    else go([&] { return tpp::when_any(in.sf[0], in.sf[1], in.sf[2]); });
}
// several ready before the call: any of them may be named, all come back
SCENARIO(ready_before, 0, 0, 0, 0)
{
    int mask = mc::choose(8, "mask"), form = mc::choose(4, "form");
    Session s;
    Inputs in(3);
    for(int i = 0; i < 3; ++i) in.mode[i] = mask >> i & 1 ? Inputs::ready_before : 99;
    in.open(form & 1);
    auto go = [&](auto r) {
        MC_CHECK(r.valid() && r.is_ready() == (mask != 0), "readiness");
        if(!mask) { in.set(2); tt::process(); MC_CHECK(r.is_ready(), "readiness"); }
        auto v = r.get();
        MC_CHECK(v.index < 3 && in.set_[v.index], "index %d", (int)v.index);
        each(v.futures, [&](auto& x, int i) {
            MC_CHECK(x.valid() && x.is_ready() == (bool)in.set_[i], "input %d", i);
            if(!in.set_[i]) in.set(i);
            in.check_value(x, i);
        });
    };
    if(form == 0) go(tpp::when_any(in.f.begin(), in.f.end()));
    else if(form == 1) go(tpp::when_any(in.sf.begin(), in.sf.end()));
    else if(form == 2) go(tpp::when_any(in.f[0], in.f[1], in.f[2]));
    else go(tpp::when_any(in.sf[0], in.sf[1], in.sf[2]));
    // shared inputs were copied, the caller's own ones still deliver too
    if(form & 1) for(int i = 0; i < 3; ++i) in.check_value(in.sf[i], i);
}
// every kind of range
namespace
{
template<typename T>
void ranges(Inputs& in, std::vector<T>& v, int kind, int first)
{
    auto r = as_range(kind, v, [](auto a, auto b) { return tpp::when_any(a, b); });
    bool reversed = kind == r_const && !std::is_copy_constructible<T>::value;
    auto at = [&](int i) { return reversed ? in.n - 1 - i : i; };
    tt::process();
    if(in.n == 0)
    {
        MC_CHECK(r.is_ready(), "empty range");
        auto got = r.get();
        MC_CHECK(got.index == size_t(-1) && got.futures.empty(), "empty range");
        return;
    }
    MC_CHECK(r.is_ready() == in.set_[first], "readiness");
    if(!in.set_[first]) in.set(first);
    tt::process();
    MC_CHECK(r.valid() && r.is_ready() && !r.has_error(), "not ready although an input is");
    auto got = r.get();
    MC_CHECK((int)got.futures.size() == in.n, "%d inputs came back", (int)got.futures.size());
    MC_CHECK((int)got.index == at(first), "index %d, expected %d", (int)got.index, at(first));
    for(int i = 0; i < in.n; ++i)
    {
        MC_CHECK(got.futures[at(i)].valid() && got.futures[at(i)].is_ready() == (i == first), "input %d", i);
        if(i != first) in.set(i);
        in.check_value(got.futures[at(i)], i);
    }
}
} // namespace
SCENARIO(any_range, 0, 0, 0, 0)
{
    int n = mc::choose(4, "inputs"), kind = mc::choose(n_ranges, "range"), early = mc::choose(2, "ready before"), shared = mc::choose(2, "shared"), err = mc::choose(2, "error");
    int first = n ? mc::choose(n, "first") : 0;
    Session s;
    Inputs in(n);
    for(int i = 0; i < n; ++i)
    {
        in.mode[i] = early && i == first ? Inputs::ready_before : 99;
        in.err[i] = err && i % 2 == 0;
    }
    in.open(shared);
    if(shared) ranges(in, in.sf, kind, first);
    else ranges(in, in.f, kind, first);
}

// futures of pool jobs as inputs; those not named can still be stopped, or run
SCENARIO(jobs, 3, 4, 0, 0)
{
    int form = mc::choose(2, "form"), then_ = mc::choose(3, "then"), way = mc::choose(2, "way");
    Session s;
    Pool p({{level::normal, 1}});
    p.occupy({{level::normal, 1}});
    Gate g;
    mc::Count second;
    auto a = p->schedule([] { return 10; });
    auto hold = p->schedule([&] { g.pass(); });
    auto b = p->schedule([&] { second.add(); return 11; });
    auto rest = [&](auto r, auto& f0, auto& f1) {
        MC_CHECK(r == 0 && f0.valid() && f1.valid() && f0.get() == 10 && !f1.is_ready(), "result");
        if(then_ == 0) { if(way) p->stop(f1.id); else f1.stop(); }
        if(then_ == 1) f1.change_priority(tpp::priority::critical());
        if(then_ != 1) MC_CHECK(f1.is_ready() == (then_ == 0), "input after it came back");
        g.open();
        int c = get_code([&] { return f1.get(); });
        MC_CHECK(c == (then_ ? 11 : -2) && (int)second == (then_ != 0), "second job ran %d times and delivered %d", (int)second, c);
    };
    {
        Explore e;
        if(form == 0)
        {
            auto any = tpp::when_any(std::move(a), std::move(b));
            p.free_all();
            auto r = any.get();
            rest(r.index, std::get<0>(r.futures), std::get<1>(r.futures));
        }
        else
        {
            std::vector<tpp::job_future<int>> v;
            v.push_back(std::move(a));
            v.push_back(std::move(b));
            auto any = tpp::when_any(v.begin(), v.end());
            p.free_all();
            auto r = any.get();
            rest(r.index, r.futures[0], r.futures[1]);
        }
        hold.get();
    }
}

// no inputs, abandoned input, visiting by index, continuations of inputs and result
SCENARIO(special, 99, 99, 0, 0)
{
    int kase = mc::choose(5, "case");
    Session s;
    auto me = tt::get_id();
    if(kase == 0)
    {
        auto r = tpp::when_any();
        MC_CHECK(r.is_ready() && r.get().index == size_t(-1), "empty tuple");
        std::vector<tpp::future<int>> none;
        auto q = tpp::when_any(none.begin(), none.end());
        MC_CHECK(q.is_ready(), "empty range");
        auto v = q.get();
        MC_CHECK(v.index == size_t(-1) && v.futures.empty(), "empty range");
    }
    else if(kase == 1)
    {
        auto p = std::make_unique<tpp::promise<int>>();
        tpp::promise<int> q;
        Explore e;
        auto f = p->get_future(), g = q.get_future();
        Raw r([&] { p.reset(); });
        auto v = tpp::when_any(f, g).get();
        MC_CHECK(v.index == 0 && get_code([&] { return std::get<0>(v.futures).get(); }) == -2, "abandoned input");
        q.set_value(3);
        MC_CHECK(std::get<1>(v.futures).get() == 3, "other input");
    }
    else if(kase == 2)
    {
        // tuple of different types, visited by index
        int which = mc::choose(3, "which");
        tpp::promise<int> a;
        tpp::promise<std::string> b;
        tpp::promise<void> c;
        Explore e;
        auto fa = a.get_future();
        auto fb = b.get_future();
        auto fc = c.get_future().share();
        Raw r([&] {
            if(which == 0) a.set_value(1);
            if(which == 1) b.set_value("x");
            if(which == 2) c.set_value();
        });
        auto v = tpp::when_any(fa, fb, fc).get();
        MC_CHECK(v.index == (size_t)which, "index");
        int visited = 0;
        tpp::visit_at(v.futures, v.index, [&](auto& f) { ++visited; MC_CHECK(f.valid() && f.is_ready() && !f.has_error(), "visited future"); });
        MC_CHECK(visited == 1, "visited %d", visited);
        int thrown = 0;
        try { tpp::visit_at(v.futures, 3, [&](auto&) { ++visited; }); } catch(const std::runtime_error&) { thrown = 1; }
        MC_CHECK(visited == 1 && thrown == 1, "index out of range");
    }
    else if(kase == 3)
    {
        // the returned inputs accept continuations, before and after completion
        tpp::promise<int> p, q;
        Explore e;
        std::vector<tpp::future<int>> f;
        f.push_back(p.get_future());
        f.push_back(q.get_future());
        Raw r([&] { p.set_value(1); });
        auto v = tpp::when_any(f.begin(), f.end()).get();
        MC_CHECK(v.index == 0, "index");
        auto c0 = v.futures[0].then(me, [](tpp::future<int> x) { return x.get() + 1; });
        auto c1 = v.futures[1].then(me, [](tpp::future<int> x) { return x.get() + 1; });
        Raw r2([&] { q.set_value(5); });
        MC_CHECK(c0.get() == 2 && c1.get() == 6, "continuations of returned inputs");
    }
    else
    {
        // loop over results as they come
        tpp::promise<int> p, q;
        Explore e;
        std::vector<tpp::future<int>> f;
        f.push_back(p.get_future());
        f.push_back(q.get_future());
        Raw r([&] { p.set_value(1); });
        Raw r2([&] { q.set_value(2); });
        int sum = 0;
        while(!f.empty())
        {
            auto v = tpp::when_any(f.begin(), f.end()).get();
            MC_CHECK(v.index < v.futures.size(), "index");
            sum += v.futures[v.index].get();
            v.futures.erase(v.futures.begin() + v.index);
            f = std::move(v.futures);
        }
        MC_CHECK(sum == 3, "sum %d", sum);
    }
}
