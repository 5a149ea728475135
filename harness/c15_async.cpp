#include "common.h"
// C15: async runs its function once in the right place and delivers the outcome.

namespace
{
std::launch policies(int p)
{
    return p == 0 ? (std::launch::async | std::launch::deferred) : p == 1 ? std::launch::async : std::launch::deferred;
}
} // namespace

// two threads async into T and into each other
SCENARIO(targeted, 3, 4, 0, 0)
{
    int ends = mc::choose(2, "throws"), policy = mc::choose(3, "policy");
    Session s;
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    mc::settle();
    Probe a, b;
    int ca, cb = 0;
    {
        Explore e;
        Raw r([&] {
            auto f = tpp::async(id, policies(policy), [&](int x) { b.hit(); if(ends) throw Oops{x}; return x; }, 5);
            b.runs.add(0);
            while(!f.is_ready()) std::this_thread::yield();
            cb = get_code([&] { return f.get(); });
        });
        auto f = tpp::async(id, [&](int x, int y) -> int { a.hit(); if(ends) throw Oops{x + y}; return x + y; }, 3, 4);
        ca = get_code([&] { return f.get(); });
        MC_CHECK(!f.valid(), "get releases the state");
    }
    a.expect("function", 1, id);
    b.expect("function", 1, id);
    MC_CHECK(ca == (ends ? 1007 : 7) && cb == (ends ? 1005 : 5), "delivered %d and %d", ca, cb);
}

// policy on the own thread
SCENARIO(own_thread, 0, 0, 0, 0)
{
    int policy = mc::choose(4, "policy"), id0 = mc::choose(2, "caller id");
    Session s;
    auto me = tt::get_id();
    tid target = id0 ? tpp::caller_id() : me;
    Probe a;
    auto fn = [&] { a.hit(); return 3; };
    auto f = policy == 3 ? tpp::async(target, fn) : tpp::async(target, policies(policy), fn);
    if(policy == 1) MC_CHECK((int)a.runs == 0 && !f.is_ready(), "policy async ran in place");
    else MC_CHECK((int)a.runs == 1 && f.is_ready(), "not run in place");
    MC_CHECK(f.get() == 3, "value");
    a.expect("function", 1, me);
}

// fresh threads
SCENARIO(fresh_thread, 99, 99, 0, 0)
{
    int ends = mc::choose(3, "ends"), policy = mc::choose(4, "policy");
    Session s;
    auto me = tt::get_id();
    auto before = tpp::get_all_registered_threads();
    mc::Var<tid> inside{0};
    mc::Var<std::thread::id> native{std::thread::id()};
    mc::Count runs;
    int code;
    {
        Explore e;
        auto fn = [&](int v) -> int {
            runs.add();
            inside = tt::get_id();
            native = std::this_thread::get_id();
            MC_CHECK(tt::is_registered() && tt::get_id() != tpp::invalid_id(), "not registered while running");
            MC_CHECK(listed(tt::get_id()), "not listed while running");
            if(ends == 1) throw Oops{v};
            return v;
        };
        if(ends == 2)
        {
            auto f = policy == 3 ? tpp::async([&] { fn(1); }) : tpp::async(policies(policy), [&] { fn(1); });
            code = get_code([&] { f.get(); return 7; });
        }
        else
        {
            auto f = policy == 3 ? tpp::async(fn, 7) : tpp::async(policies(policy), fn, 7);
            code = get_code([&] { return f.get(); });
        }
        MC_CHECK((int)runs == 1, "function ran %d times", (int)runs);
        mc::settle();
    }
    MC_CHECK(code == (ends == 1 ? 1007 : 7), "delivered %d", code);
    MC_CHECK(inside != me && inside != 0 && native != std::this_thread::get_id(), "ran on thread %d", (int)inside.get());
    MC_CHECK((int)runs == 1, "function ran %d times", (int)runs);
    MC_CHECK(!listed(inside), "fresh thread still registered");
    MC_CHECK(tpp::get_all_registered_threads().size() == before.size(), "registrations left behind");
}
// two at a time are different threads, and nothing stays behind
SCENARIO(two_fresh_threads, 3, 4, 0, 0)
{
    int wait_each = mc::choose(2, "blocks");
    Session s;
    mc::Var<tid> a{0}, b{0};
    mc::Count n;
    auto before = tpp::get_all_registered_threads().size();
    {
        Explore e;
        tpp::promise<int> p;
        auto sf = p.get_future().share();
        auto f = tpp::async([&] { a = tt::get_id(); n.add(); return wait_each ? tpp::shared_future<int>(sf).get() : 1; });
        auto g = tpp::async([&] { b = tt::get_id(); n.add(); if(wait_each) p.set_value(1); return 2; });
        MC_CHECK(f.get() == 1 && g.get() == 2, "values");
        mc::settle();
    }
    MC_CHECK((int)n == 2 && a != b && a != tt::get_id() && b != tt::get_id(), "two fresh threads, got %d and %d", (int)a.get(), (int)b.get());
    MC_CHECK(tpp::get_all_registered_threads().size() == before, "registrations left behind");
}

// then without a target, on every kind of future
template<typename T>
static void fresh_then(int when, int shared, int outcome, int policy)
{
    Session s;
    auto me = tt::get_id();
    auto before = tpp::get_all_registered_threads().size();
    tpp::promise<T> p;
    auto f = p.get_future();
    Probe c;
    int code;
    auto set = [&] { if constexpr(std::is_void<T>::value) p.set_value(); else p.set_value(4); };
    if(when == 0) set();
    auto pause = 10s;
    if(when == 3)
    {
        auto idle = tpp::make_thread();
        if(affordable(7200, [](std::chrono::seconds d) { std::this_thread::sleep_for(d); })) pause = 7200s;
    }
    before = tpp::get_all_registered_threads().size();
    {
        Explore e;
        auto body = [&](auto x) -> int {
            c.hit();
            MC_CHECK(listed(tt::get_id()) && tt::is_registered(), "not listed while running");
            if(outcome == 1) throw Oops{6};
            if constexpr(std::is_void<T>::value) { x.get(); return 5; }
            else return x.get() + 1;
        };
        auto vbody = [&](auto x) -> void { body(std::move(x)); };
        std::unique_ptr<Raw> r;
        if(when == 1) r = std::make_unique<Raw>([&] { set(); });
        auto attach = [&](auto&& from) {
            if(outcome == 2)
            {
                tpp::future<void> g = policy == 3 ? from.then(vbody) : from.then(policies(policy), vbody);
                if(when == 3) std::this_thread::sleep_for(pause);
                if(when >= 2) set();
                code = get_code([&] { g.get(); return 5; });
            }
            else
            {
                tpp::future<int> g = policy == 3 ? from.then(body) : from.then(policies(policy), body);
                if(when == 3) std::this_thread::sleep_for(pause);
                if(when >= 2) set();
                code = get_code([&] { return g.get(); });
            }
        };
        if(shared) attach(f.share());
        else attach(std::move(f));
        r.reset();
        mc::settle();
    }
    MC_CHECK((int)c.runs == 1 && c.where != me && c.where != 0, "ran %d times on %d", (int)c.runs, (int)c.where.get());
    MC_CHECK(code == (outcome == 1 ? 1006 : 5), "delivered %d", code);
    MC_CHECK(!listed(c.where) && tpp::get_all_registered_threads().size() == before, "registrations left behind");
}
SCENARIO(fresh_then_value, 3, 4, 0, 0)
{
    fresh_then<int>(mc::choose(4, "set"), mc::choose(2, "shared"), mc::choose(3, "outcome"), mc::choose(4, "policy"));
}
SCENARIO(fresh_then_void, 3, 4, 0, 0)
{
    fresh_then<void>(mc::choose(4, "set"), mc::choose(2, "shared"), mc::choose(3, "outcome"), mc::choose(4, "policy"));
}

// from a thread the library does not know, and from inside another fresh thread
SCENARIO(nested_fresh, 4, 5, 0, 0)
{
    int how = mc::choose(3, "how");
    Session s;
    auto before = tpp::get_all_registered_threads().size();
    mc::Var<int> v{0};
    {
        Explore e;
        if(how == 0)
        {
            auto f = tpp::async([] { return tpp::async([] { return 5; }).get() + 1; });
            v = f.get();
        }
        else if(how == 1)
        {
            tpp::future<int> f;
            Raw r([&] { f = tpp::async([] { return 6; }); });
            r.join();
            v = f.get();
            r.t = std::thread([] {});
        }
        else
        {
            auto f = tpp::async([] { return 5; }).then([](tpp::future<int> x) { return x.get() + 1; });
            v = f.get();
        }
        mc::settle();
    }
    MC_CHECK(v == 6, "delivered %d", v.get());
    MC_CHECK(tpp::get_all_registered_threads().size() == before, "registrations left behind");
}

// shutdown right after the results
SCENARIO(shutdown_after_results, 8, 9, 0, 0)
{
    tpp::init();
    int r;
    {
        Explore e;
        auto f = tpp::async([] { return 5; });
        if(mc::choose(2, "wait")) MC_CHECK(f.get() == 5, "value");
        else f.wait();
        r = tpp::shutdown(1s);
    }
    MC_CHECK(r == 0, "shutdown returned %d", r);
    MC_CHECK(tpp::get_all_registered_threads().empty(), "registrations left behind");
}

// the task of a fresh thread is served even if other messages reach that thread first: it serves what was sent
SCENARIO(fresh_thread_id_reuse, 4, 5, 0, 0)
{
    Session s;
    mc::Var<tid> a{0}, b{0};
    {
        Explore e;
        MC_CHECK(tpp::async([&] { a = tt::get_id(); return 1; }).get() == 1, "first");
        MC_CHECK(tpp::async([&] { b = tt::get_id(); return 2; }).get() == 2, "second");
        mc::settle();
    }
    MC_CHECK(a != b, "two fresh threads share id %d", (int)a.get());
}

// a call that fails leaves no thread behind
SCENARIO(failing_calls, 5, 6, 0, 0)
{
    int how = mc::choose(6, "how");
    Session s;
    auto before = tpp::get_all_registered_threads().size();
    mc::Count ran;
    struct Task
    {
        mc::Count* ran;
        explicit Task(mc::Count& r) : ran(&r) {}
        Task(const Task&) { throw Oops{6}; }
        void operator()() { ran->add(); }
    } task(ran);
    {
        Explore e;
        tpp::future<int> none;
        tpp::shared_future<int> shared_none;
        auto body = [&](auto) { ran.add(); };
        int code = get_code([&] {
            switch(how)
            {
                case 0: none.then(body); break;
                case 1: none.then(std::launch::async, body); break;
                case 2: shared_none.then(body); break;
                case 3: shared_none.then(std::launch::deferred, body); break;
                case 4: tpp::async(task); break;
                case 5: tpp::async(std::launch::async, task); break;
            }
            return 1;
        });
        MC_CHECK(how < 4 ? code != 1 : code == 1006, "the failure gave %d", code);
        mc::settle();
    }
    MC_CHECK((int)ran == 0, "ran all the same");
    MC_CHECK(tpp::get_all_registered_threads().size() == before, "a thread was left behind");
    MC_CHECK(tpp::async([] { return 5; }).get() == 5, "afterwards");
}
