#include "common.h"
// C06: inline or queued execution follows the documented rule.

namespace
{
struct Where
{
    mc::Count runs;
    mc::Var<tid> where{0};
    mc::Var<int> native{-1};
    void hit() { runs.add(); where = tt::get_id(); native = mc::self(); }
};
// checks one launch made by `launch` on the calling thread (me) towards target
template<typename L>
void judge(Where& w, tid me, tid target, bool always_queue, const char* what, L&& launch)
{
    launch();
    bool self = target == me || target == tpp::caller_id();
    if(self && !always_queue)
    {
        MC_CHECK((int)w.runs == 1 && w.where == me && w.native == mc::self(), "%s to the calling thread was not run immediately on it (ran %d times)", what, (int)w.runs);
    }
    else if(self)
    {
        MC_CHECK((int)w.runs == 0, "%s to the calling thread was run before the call returned", what);
        MC_CHECK(tpp::get_pending_task_count(me) >= 1, "%s to the calling thread was not queued", what);
        tt::process();
        MC_CHECK((int)w.runs == 1 && w.where == me, "%s to the calling thread did not run when processed", what);
    }
    else
    {
        MC_CHECK((int)w.runs == 0 || w.native != mc::self(), "%s to another thread ran on the calling thread", what);
        mc::settle();
        MC_CHECK((int)w.runs == 1 && w.where == target, "%s did not run on its target", what);
    }
}
} // namespace

template<typename Body>
static void on_thread(int which, Body&& body)
{
    // 0: main thread, 1: a prepared worker (inside a task), 2: a registered plain thread
    if(which == 0) body();
    else if(which == 1)
    {
        auto t = tpp::make_thread("caller");
        Gate done;
        tpp::invoke(t.get_id(), [&] { body(); done.open(); });
        done.pass();
    }
    else
    {
        Raw r([&] { tt::register_this_thread(); body(); tt::unregister_this_thread(); });
    }
}

SCENARIO(sends, 99, 99, 0, 0)
{
    Session s;
    auto other = tpp::make_thread("other");
    auto oid = other.get_id();
    mc::settle();
    int caller = mc::choose(3, "caller"), to = mc::choose(3, "target"), entry = mc::choose(7, "entry");
    mc::explore(true);
    on_thread(caller, [&] {
        auto me = tt::get_id();
        tid target = to == 0 ? me : to == 1 ? oid : tpp::caller_id();
        Where w;
        auto fn = [&w](int a) { w.hit(); return a; };
        switch(entry)
        {
            case 0: if(to != 2) judge(w, me, target, true, "invoke", [&] { MC_CHECK(tpp::invoke(target, fn, 1), "invoke returned false"); }); break;
            case 1: if(to != 2) judge(w, me, target, false, "dispatch", [&] { MC_CHECK(tpp::dispatch(target, fn, 1), "dispatch returned false"); }); break;
            case 2: judge(w, me, target, false, "async", [&] { tpp::async(target, fn, 1); }); break;
            case 3: judge(w, me, target, false, "async deferred", [&] { tpp::async(target, std::launch::deferred, fn, 1); }); break;
            case 4: judge(w, me, target, true, "async async", [&] { tpp::async(target, std::launch::async, fn, 1); }); break;
            case 5: judge(w, me, target, false, "async default", [&] { tpp::async(target, std::launch::async | std::launch::deferred, fn, 1); }); break;
            case 6: if(to != 2) judge(w, me, target, true, "invoke void", [&] { tpp::invoke(target, [&w] { w.hit(); }); }); break;
        }
    });
    mc::explore(false);
}

// then: the launching thread is the attaching thread if the parent is ready, else the setting one
template<typename T, bool Shared>
static void then_case(bool ready, bool error, int policy, int to, int setter)
{
    Session s;
    auto other = tpp::make_thread("other"), third = tpp::make_thread("third");
    auto oid = other.get_id(), th = third.get_id();
    mc::settle();
    auto me = tt::get_id();
    Where w;
    tpp::promise<T> p;
    auto set = [&] {
        if(error) p.set_exception(std::make_exception_ptr(Oops{1}));
        else if constexpr(std::is_void<T>::value) p.set_value();
        else p.set_value(5);
    };
    tpp::future<void> out;
    auto attach = [&](tid target) {
        auto f = p.get_future();
        auto run = [&](auto fut) {
            auto fn = [&w](decltype(fut)) { w.hit(); };
            auto go = std::move(fut);
            if(policy == 0) out = go.then(target, fn);
            if(policy == 1) out = go.then(target, std::launch::deferred, fn);
            if(policy == 2) out = go.then(target, std::launch::async, fn);
        };
        if constexpr(Shared) run(f.share());
        else run(std::move(f));
    };
    bool always = policy == 2;
    tid target = to == 0 ? me : to == 1 ? oid : to == 2 ? tpp::caller_id() : th;
    if(ready)
    {
        set();
        judge(w, me, target, always, "then on a ready future", [&] { attach(target); });
    }
    else
    {
        attach(target);
        MC_CHECK((int)w.runs == 0, "continuation ran before its parent was ready");
        if(setter == 0) judge(w, me, target, always, "continuation", [&] { set(); });
        else
        {
            mc::Var<int> done{0};
            Gate judged;
            tpp::invoke(oid, [&] { judge(w, oid, target, always, "continuation", [&] {
                set();
                if(target == me) tpp::invoke(me, [&done] { done = 1; });
            }); judged.open(); });
            if(target == me)
            {
                while(done == 0) tt::wait();
                tt::process();
            }
            judged.pass();
            mc::settle();
        }
    }
    MC_CHECK(out.valid() && out.is_ready(), "future of the continuation ready");
    tid expect = target;
    if(target == tpp::caller_id()) expect = (ready || setter == 0) ? me : oid;
    MC_CHECK((int)w.runs == 1 && w.where == expect, "continuation ran %d times, on thread %d instead of %d", (int)w.runs, (int)w.where.get(), (int)expect);
}
// a continuation targeted at a blocked main thread is served by its wait
SCENARIO(thens, 3, 4, 0, 0)
{
    bool ready = mc::choose(2, "ready"), error = mc::choose(2, "error");
    int policy = mc::choose(3, "policy"), to = mc::choose(4, "target"), setter = ready ? 0 : mc::choose(2, "setter");
    mc::explore(true);
    switch(mc::choose(4, "type"))
    {
        case 0: then_case<int, false>(ready, error, policy, to, setter); break;
        case 1: then_case<void, false>(ready, error, policy, to, setter); break;
        case 2: then_case<int, true>(ready, error, policy, to, setter); break;
        case 3: then_case<void, true>(ready, error, policy, to, setter); break;
    }
}

// without a target the function never runs on the caller
SCENARIO(untargeted, 99, 99, 0, 0)
{
    Session s;
    Where w;
    auto me = tt::get_id();
    int what = mc::choose(6, "entry");
    mc::explore(true);
    tpp::future<void> f;
    auto fn = [&] { w.hit(); };
    auto fc = [&](auto) { w.hit(); };
    switch(what)
    {
        case 0: f = tpp::async(fn); break;
        case 1: f = tpp::async(std::launch::async, fn); break;
        case 2: f = tpp::async(std::launch::deferred, fn); break;
        case 3: f = tpp::make_ready_future().then(fc); break;
        case 4: f = tpp::make_ready_future(1).then(std::launch::deferred, fc); break;
        case 5: f = tpp::make_ready_future(1).share().then(fc); break;
    }
    f.get();
    mc::explore(false);
    MC_CHECK((int)w.runs == 1 && w.native != mc::self() && w.where != me && w.where != 0, "untargeted function ran on the caller or unregistered");
}

// the rule does not depend on how deep inside tasks the caller is, nor on what is queued
SCENARIO(nested, 0, 0, 0, 0)
{
    Session s;
    auto other = tpp::make_thread("other");
    auto oid = other.get_id();
    mc::settle();
    int depth = mc::choose(5, "depth"), queued = mc::choose(3, "queued"), worker = mc::choose(2, "worker");
    int to = mc::choose(3, "target"), entry = mc::choose(9, "entry");
    bool done = false;
    auto body = [&] {
        auto me = tt::get_id();
        MC_CHECK((int)tt::get_depth() == depth + worker, "depth");
        tid target = to == 0 ? me : to == 1 ? oid : tpp::caller_id();
        Where w;
        auto fn = [&w](int) { w.hit(); };
        auto fc = [&w](auto) { w.hit(); };
        for(int i = 0; i < queued; ++i) tpp::invoke(me, [] {});
        switch(entry)
        {
            case 0: if(to != 2) judge(w, me, target, true, "invoke", [&] { MC_CHECK(tpp::invoke(target, fn, 1), "invoke returned false"); }); break;
            case 1: if(to != 2) judge(w, me, target, false, "dispatch", [&] { MC_CHECK(tpp::dispatch(target, fn, 1), "dispatch returned false"); }); break;
            case 2: judge(w, me, target, false, "async", [&] { tpp::async(target, fn, 1); }); break;
            case 3: judge(w, me, target, false, "async deferred", [&] { tpp::async(target, std::launch::deferred, fn, 1); }); break;
            case 4: judge(w, me, target, true, "async async", [&] { tpp::async(target, std::launch::async, fn, 1); }); break;
            case 5: judge(w, me, target, false, "then", [&] { tpp::make_ready_future(1).then(target, fc); }); break;
            case 6: judge(w, me, target, true, "then async", [&] { tpp::make_ready_future().share().then(target, std::launch::async, fc); }); break;
            case 7:
            {
                tpp::promise<int> p;
                p.get_future().then(target, fc);
                judge(w, me, target, false, "continuation", [&] { p.set_value(1); });
                break;
            }
            case 8:
            {
                tpp::promise<void> p;
                p.get_future().then(target, std::launch::async, fc);
                judge(w, me, target, true, "continuation async", [&] { p.set_value(); });
                break;
            }
        }
        done = true;
    };
    std::function<void(int)> at = [&](int d) {
        if(d == 0) return body();
        tpp::invoke(tt::get_id(), [&at, d] { at(d - 1); });
        tt::process();
    };
    if(worker)
    {
        auto t = tpp::make_thread("caller");
        Gate end;
        tpp::invoke(t.get_id(), [&] { at(depth); end.open(); });
        end.pass();
    }
    else at(depth);
    MC_CHECK(done, "not reached");
}

// a thread that is not registered has no id of its own; a task for the caller still runs at once there
SCENARIO(unregistered_caller, 0, 0, 0, 0)
{
    Session s;
    auto other = tpp::make_thread("other");
    auto oid = other.get_id();
    mc::settle();
    int to = mc::choose(2, "target"), entry = mc::choose(5, "entry");
    Where w;
    mc::Var<int> native{-2};
    {
        Raw r([&] {
            native = mc::self();
            tid target = to ? oid : tpp::caller_id();
            auto fn = [&w](int) { w.hit(); };
            auto fc = [&w](auto) { w.hit(); };
            switch(entry)
            {
                case 0: tpp::async(target, fn, 1); break;
                case 1: tpp::async(target, std::launch::deferred, fn, 1); break;
                case 2: tpp::make_ready_future(1).then(target, fc); break;
                case 3: { tpp::promise<int> p; p.get_future().then(target, fc); p.set_value(1); break; }
                case 4: { tpp::promise<void> p; auto f = p.get_future().share(); f.then(target, std::launch::deferred, fc); p.set_value(); break; }
            }
            if(!to) MC_CHECK((int)w.runs == 1, "task for the calling thread was not run immediately on it");
        });
    }
    mc::settle();
    MC_CHECK((int)w.runs == 1, "ran %d times", (int)w.runs);
    if(to) MC_CHECK(w.where == oid, "ran elsewhere");
    else MC_CHECK(w.native == native, "ran elsewhere");
}
