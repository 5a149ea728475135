#include "crowd.h"
// C14 with many continuations.

SCENARIO(many, 0, 0, 0, 0)
{
    static const int counts[] = {9, 33, 300, 2000};
    int n = counts[mc::choose(4, "continuations")], where = mc::choose(3, "target"), error = mc::choose(2, "error"), late = mc::choose(3, "attached late");
    mc::max_steps(3000000);
    Session s;
    auto t = tpp::make_thread();
    tpp::promise<int> p;
    auto f = p.get_future().share();
    std::vector<Probe> probe(n);
    std::vector<tpp::future<int>> out;
    tid target = where == 0 ? tt::get_id() : t.get_id();
    auto policy = where == 2 ? std::launch::async : std::launch::deferred;
    auto attach = [&](int i) {
        out.push_back(f.then(target, policy, [&, i](tpp::shared_future<int> x) {
            MC_CHECK(x.is_ready(), "parent not ready");
            probe[i].hit();
            return (int)x.get() + i;
        }));
    };
    int split = late == 0 ? n : late == 1 ? 0 : n / 2;
    for(int i = 0; i < split; ++i) attach(i);
    for(auto& x : probe) MC_CHECK((int)x.runs == 0, "ran before the parent was ready");
    if(error) p.set_exception(std::make_exception_ptr(Oops{3}));
    else p.set_value(5);
    for(int i = split; i < n; ++i) attach(i);
    mc::settle();
    for(int i = 0; i < n; ++i)
    {
        probe[i].expect("continuation", 1, target);
        MC_CHECK(out[i].is_ready(), "result of continuation %d not ready", i);
        int c = get_code([&] { return out[i].get(); });
        MC_CHECK(c == (error ? 1003 : 5 + i), "continuation %d delivered %d", i, c);
    }
    t.join();
}

SCENARIO(long_chain, 0, 0, 0, 0)
{
    int n = 1 + mc::choose(30, "length"), where = mc::choose(3, "targets"), error = mc::choose(2, "error"), late = mc::choose(2, "set first");
    Session s;
    auto a = tpp::make_thread(), b = tpp::make_thread();
    tpp::promise<int> p;
    auto f = p.get_future();
    mc::Count ran;
    auto set = [&] {
        if(error) p.set_exception(std::make_exception_ptr(Oops{3}));
        else p.set_value(0);
    };
    if(late) set();
    for(int i = 0; i < n; ++i)
    {
        tid target = where == 0 ? a.get_id() : where == 1 ? tpp::caller_id() : (i % 2 ? a : b).get_id();
        f = f.then(target, [&, i, target, where](tpp::future<int> x) {
            if(where != 1) MC_CHECK(tt::get_id() == target, "wrong thread");
            MC_CHECK((int)ran == i, "continuation %d of a chain started after %d others", i, (int)ran);
            ran.add();
            return x.get() + 1;
        });
    }
    if(!late) set();
    mc::settle();
    MC_CHECK(f.is_ready(), "end of the chain not ready");
    MC_CHECK((int)ran == n, "%d of %d continuations ran", (int)ran, n);
    int c = get_code([&] { return f.get(); });
    MC_CHECK(c == (error ? 1003 : n), "chain delivered %d", c);
    a.join();
    b.join();
}

// whatever a continuation throws comes out of its future; whatever the parent has is seen by the continuation
SCENARIO(any_exception, 0, 0, 0, 0)
{
    int k = mc::choose(n_exceptions, "exception"), shared = mc::choose(2, "shared"), v = mc::choose(2, "void"), late = mc::choose(2, "late"), own = mc::choose(2, "own thread");
    int chain = mc::choose(2, "rethrown by the next");
    Session s;
    auto t = tpp::make_thread();
    tid target = own ? tt::get_id() : t.get_id();
    tpp::promise<void> pv;
    tpp::promise<int> pi;
    std::exception_ptr e;
    try { throw_number(k); } catch(...) { e = std::current_exception(); }
    auto set = [&] { if(v) pv.set_exception(e); else pi.set_exception(e); };
    mc::Var<int> seen{-3};
    auto body = [&](auto x) {
        seen = thrown_number([&] { x.get(); });
        throw_number(k);
        return 1;
    };
    if(late) set();
    tpp::future<int> out;
    if(v) out = shared ? pv.get_future().share().then(target, body) : pv.get_future().then(target, body);
    else out = shared ? pi.get_future().share().then(target, body) : pi.get_future().then(target, body);
    if(!late) set();
    if(chain) out = out.then(target, [](tpp::future<int> x) { return x.get(); });
    int r = thrown_number([&] { out.get(); });
    MC_CHECK(seen == k, "the continuation saw exception %d as %d", k, (int)seen);
    MC_CHECK(r == k, "exception %d of the continuation came out as %d", k, r);
    t.join();
}
