#include "pool_common.h"
// C27: callables, arguments and results pass through intact and unshared.

namespace
{
// Counts copies, moves and live instances; knows whether it was moved from or destroyed.
struct Obj
{
    Life* l;
    int v; // plain data on purpose: sharing between threads is a data race
    bool from_rvalue = false;
    Obj(Life& x, int val) : l(&x), v(val) { l->made.add(); l->live.add(); }
    Obj(const Obj& o) : l(o.l), v(o.v) { l->copied.add(); l->live.add(); }
    Obj(Obj&& o) noexcept : l(o.l), v(o.v) { o.v = -1; l->moved.add(); l->live.add(); }
    Obj& operator=(const Obj&) = delete;
    ~Obj() { v = -2; l->live.add(-1); MC_CHECK((int)l->live >= 0, "destroyed twice"); }
    void operator()() = delete;
};
struct MoveOnly : Obj
{
    using Obj::Obj;
    MoveOnly(MoveOnly&&) = default;
    MoveOnly(const MoveOnly&) = delete;
};
// callable with a payload
template<typename O>
struct Fn
{
    O o;
    mc::Var<int>* seen;
    int operator()() { *seen = o.v; return o.v + 1; }
    template<typename A>
    int operator()(A&& a) { *seen = o.v * 100 + a.v; return o.v + 1; }
};

enum { e_invoke, e_dispatch, e_async, e_async_queued, e_async_fresh, e_schedule, e_schedule_prio, e_invoke_self, e_async_self, n_entries };

struct World
{
    Session s;
    tpp::thread t;
    tid id, me;
    std::unique_ptr<tpp::thread_pool> pool;
    World()
    {
        t = tpp::make_thread("T");
        id = t.get_id();
        me = tt::get_id();
        pool = std::make_unique<tpp::thread_pool>(levels{{level::normal, 1}});
        mc::settle();
    }
    template<typename F, typename... A>
    int send(int entry, F&& f, A&&... a)
    {
        switch(entry)
        {
            case e_invoke: MC_CHECK(tpp::invoke(id, std::forward<F>(f), std::forward<A>(a)...), "accepted"); return 0;
            case e_dispatch: MC_CHECK(tpp::dispatch(id, std::forward<F>(f), std::forward<A>(a)...), "accepted"); return 0;
            case e_invoke_self: MC_CHECK(tpp::invoke(me, std::forward<F>(f), std::forward<A>(a)...), "accepted"); return 0;
            case e_async: fut = tpp::async(id, std::forward<F>(f), std::forward<A>(a)...); return 1;
            case e_async_queued: fut = tpp::async(id, std::launch::async, std::forward<F>(f), std::forward<A>(a)...); return 1;
            case e_async_fresh: fut = tpp::async(std::forward<F>(f), std::forward<A>(a)...); return 1;
            case e_async_self: fut = tpp::async(me, std::launch::async, std::forward<F>(f), std::forward<A>(a)...); return 1;
            case e_schedule: fut = pool->schedule(std::forward<F>(f), std::forward<A>(a)...); return 1;
            case e_schedule_prio: fut = pool->schedule(tpp::priority::high(2), std::forward<F>(f), std::forward<A>(a)...); return 1;
        }
        return 0;
    }
    tpp::future<int> fut;
    void finish(int has_future, mc::Var<int>& seen, int expect)
    {
        if(has_future) MC_CHECK(fut.get() == 8, "result");
        tt::process();
        mc::settle();
        MC_CHECK(seen == expect, "the callable saw %d, expected %d", (int)seen, expect);
    }
    ~World() { pool.reset(); }
};
} // namespace

// every entry point x how callable and argument are passed; the caller goes on using its lvalues
SCENARIO(categories, 5, 6, 0, 0)
{
    int entry = mc::choose(n_entries, "entry"), fcat = mc::choose(3, "callable"), acat = mc::choose(4, "argument");
    Life lf, la;
    mc::Var<int> seen{0};
    {
        World w;
        Fn<Obj> f{Obj(lf, 7), &seen};
        Obj a(la, 5);
        const Obj ca(la, 5);
        const int f0 = lf.copied, a0 = la.copied;
        Explore e;
        int fu = 0;
        auto go = [&](auto&& fn) {
            using F = decltype(fn);
            if(acat == 0) fu = w.send(entry, std::forward<F>(fn), a);
            if(acat == 1) fu = w.send(entry, std::forward<F>(fn), std::move(a));
            if(acat == 2) fu = w.send(entry, std::forward<F>(fn), ca);
            if(acat == 3) fu = w.send(entry, std::forward<F>(fn));
        };
        if(fcat == 0) go(f);
        if(fcat == 1) go(std::move(f));
        if(fcat == 2) go(Fn<Obj>{Obj(lf, 7), &seen});
        // the caller's objects are its own again
        if(fcat != 1) MC_CHECK(f.o.v == 7, "the caller's callable was changed");
        if(acat != 1) MC_CHECK(a.v == 5, "the caller's argument was changed");
        MC_CHECK(ca.v == 5, "const argument changed");
        f.o.v = 66;
        a.v = 77;
        w.finish(fu, seen, acat == 3 ? 7 : 705);
        MC_CHECK((int)lf.copied - f0 <= (fcat == 0), "callable copied %d times", (int)lf.copied - f0);
        MC_CHECK((int)la.copied - a0 <= (acat == 0 || acat == 2), "argument copied %d times", (int)la.copied - a0);
        MC_CHECK((int)lf.live == 1 && (int)la.live == 2, "library kept a callable or argument alive (%d, %d)", (int)lf.live, (int)la.live);
        MC_CHECK(f.o.v == 66 && a.v == 77, "the caller's objects were changed later");
    }
    MC_CHECK((int)lf.live == 0 && (int)la.live == 0, "instances left");
}

// the caller destroys its lvalues right after the call
SCENARIO(caller_destroys, 99, 99, 0, 0)
{
    int entry = mc::choose(n_entries, "entry"), rv = mc::choose(2, "rvalue");
    Life lf, la;
    mc::Var<int> seen{0};
    {
        World w;
        auto f = std::make_unique<Fn<Obj>>(Fn<Obj>{Obj(lf, 7), &seen});
        auto a = std::make_unique<Obj>(la, 5);
        Explore e;
        int fu = rv ? w.send(entry, std::move(*f), std::move(*a)) : w.send(entry, *f, *a);
        f.reset();
        a.reset();
        w.finish(fu, seen, 705);
    }
    MC_CHECK((int)lf.live == 0 && (int)la.live == 0, "instances left");
}

// move-only callables, arguments, results
SCENARIO(move_only, 99, 99, 0, 0)
{
    int entry = mc::choose(n_entries, "entry"), kind = mc::choose(3, "kind");
    Life lf, la;
    mc::Var<int> seen{0};
    {
        World w;
        Explore e;
        int fu = 0;
        if(kind == 0) fu = w.send(entry, Fn<MoveOnly>{MoveOnly(lf, 7), &seen});
        if(kind == 1) fu = w.send(entry, [&seen](MoveOnly a) { seen = a.v; return 8; }, MoveOnly(la, 7));
        if(kind == 2)
        {
            Fn<MoveOnly> f{MoveOnly(lf, 7), &seen};
            MoveOnly a(la, 5);
            fu = w.send(entry, std::move(f), std::move(a));
            MC_CHECK(f.o.v == -1 && a.v == -1, "moved from");
        }
        w.finish(fu, seen, kind == 2 ? 705 : 7);
        MC_CHECK((int)lf.live == 0 && (int)la.live == 0, "library kept something alive");
    }
}
SCENARIO(move_only_results, 99, 99, 0, 0)
{
    int entry = mc::choose(5, "entry");
    Life l;
    {
        World w;
        Explore e;
        tpp::future<MoveOnly> f;
        auto fn = [&l] { return MoveOnly(l, 9); };
        if(entry == 0) f = tpp::async(w.id, fn);
        if(entry == 1) f = tpp::async(fn);
        if(entry == 2) f = w.pool->schedule(fn);
        if(entry == 3) f = tpp::make_ready_future(1).then(w.id, [&l](tpp::future<int> x) { return MoveOnly(l, 8 + x.get()); });
        if(entry == 4) f = tpp::make_ready_future(MoveOnly(l, 9));
        MoveOnly r = f.get();
        MC_CHECK(r.v == 9, "result %d", r.v);
        MC_CHECK(!f.valid(), "future is used up");
    }
    MC_CHECK((int)l.live == 0, "instances left");
}

// results: set by lvalue and rvalue, got from unique and shared futures
SCENARIO(results, 8, 9, 0, 0)
{
    int rv = mc::choose(2, "rvalue"), shared = mc::choose(2, "shared");
    Session s;
    Life l;
    {
        auto t = tpp::make_thread("T");
        mc::settle();
        tpp::promise<Obj> p;
        auto f = p.get_future();
        Obj v(l, 3);
        Explore e;
        mc::Var<int> got{0};
        Gate done;
        if(shared)
        {
            auto sf = f.share();
            tpp::invoke(t.get_id(), [&, sf] { const Obj& o = sf.get(); got = o.v; done.open(); });
            if(rv) p.set_value(std::move(v));
            else p.set_value(v);
            MC_CHECK(sf.get().v == 3, "value");
            auto other = sf;
            MC_CHECK(&other.get() == &sf.get(), "one value for all holders");
        }
        else
        {
            tpp::invoke(t.get_id(), [&, f = std::move(f)]() mutable { Obj o = f.get(); got = o.v; o.v = 1; done.open(); });
            if(rv) p.set_value(std::move(v));
            else p.set_value(v);
        }
        MC_CHECK(v.v == (rv ? -1 : 3), "source after set: %d", v.v);
        v.v = 50;
        done.pass();
        MC_CHECK(got == 3, "got %d", (int)got);
        MC_CHECK((int)l.copied == !rv, "copied %d times", (int)l.copied);
        mc::settle();
        { auto q = std::move(p); }
    }
    MC_CHECK((int)l.live == 0, "instances left: %d", (int)l.live);
}

// futures made ready from variables, constants and temporaries
SCENARIO(ready_values, 99, 99, 0, 0)
{
    int cat = mc::choose(4, "value"), shared = mc::choose(2, "shared"), other = mc::choose(2, "other");
    Session s;
    Life l;
    {
        auto t = tpp::make_thread("T");
        mc::settle();
        Obj v(l, 3);
        const Obj c(l, 3);
        Explore e;
        auto f = cat == 0 ? tpp::make_ready_future(v) : cat == 1 ? tpp::make_ready_future(c) : cat == 2 ? tpp::make_ready_future(std::move(v)) : tpp::make_ready_future(Obj(l, 3));
        MC_CHECK(f.is_ready() && !f.has_error(), "not ready");
        MC_CHECK(v.v == (cat == 2 ? -1 : 3) && c.v == 3, "the caller's object was changed");
        v.v = 50;
        MC_CHECK((int)l.copied == (cat < 2), "copied %d times", (int)l.copied);
        mc::Var<int> got{0};
        if(shared)
        {
            auto sf = f.share();
            if(other) { Gate done; tpp::invoke(t.get_id(), [&, sf] { got = sf.get().v; done.open(); }); done.pass(); }
            else got = sf.get().v;
        }
        else if(other)
        {
            Gate done;
            tpp::invoke(t.get_id(), [&, f = std::move(f)]() mutable { got = f.get().v; done.open(); });
            done.pass();
        }
        else got = f.get().v;
        MC_CHECK(got == 3, "got %d", (int)got);
        mc::settle();
    }
    MC_CHECK((int)l.live == 0, "instances left: %d", (int)l.live);
}

// continuations: categories of the callable, attached before or after readiness
SCENARIO(continuation_callable, 99, 99, 0, 0)
{
    int cat = mc::choose(4, "callable"), late = mc::choose(2, "late"), shared = mc::choose(2, "shared"), where = mc::choose(3, "where");
    Life l;
    mc::Var<int> seen{0};
    {
        World w;
        tpp::promise<int> p;
        auto f = p.get_future();
        tpp::shared_future<int> sf;
        if(shared) sf = f.share();
        auto fn = [o = Obj(l, 7), &seen](auto x) { seen = o.v * 100 + x.get(); return o.v; };
        const int c0 = l.copied;
        Explore e;
        if(late) p.set_value(5);
        tid target = where == 0 ? w.id : where == 1 ? w.me : 0;
        tpp::future<int> r;
        auto attach = [&](auto&& k) {
            using K = decltype(k);
            if(where == 2) { if(shared) r = sf.then(std::forward<K>(k)); else r = f.then(std::forward<K>(k)); }
            else if(shared) r = sf.then(target, std::forward<K>(k));
            else r = f.then(target, std::forward<K>(k));
        };
        if(cat == 0) attach(fn);
        if(cat == 1) attach(std::move(fn));
        if(cat == 2) attach([o = MoveOnly(l, 7), &seen](auto x) { seen = o.v * 100 + x.get(); return o.v; });
        if(cat == 3) attach(std::as_const(fn));
        if(!late) p.set_value(5);
        MC_CHECK(r.get() == 7, "result");
        MC_CHECK(seen == 705, "seen %d", (int)seen);
        MC_CHECK((int)l.copied - c0 <= (cat == 0 || cat == 3), "callable copied %d times", (int)l.copied - c0);
        mc::settle();
        MC_CHECK((int)l.live == 1, "library kept the continuation alive (%d)", (int)l.live);
    }
    MC_CHECK((int)l.live == 0, "instances left");
}

// function pointers, std::function, reference wrapped callables, member function of the future, conversions
static mc::Var<int>* g_seen;
static int plain(int a) { *g_seen = a; return 8; }
struct Counter
{
    int n = 0;
    mc::Var<int>* seen;
    int operator()() { *seen = ++n; return 8; }
    int operator()(int d) { *seen = n += d; return 8; }
};
SCENARIO(callable_kinds, 4, 5, 0, 0)
{
    int entry = mc::choose(n_entries, "entry"), kind = mc::choose(8, "kind");
    mc::Var<int> seen{0};
    g_seen = &seen;
    {
        World w;
        Counter c{0, &seen};
        std::function<int(int)> sf = plain;
        Explore e;
        int fu = 0, expect = 4;
        long big = 4;
        switch(kind)
        {
            case 0: fu = w.send(entry, &plain, 4); break;
            case 1: fu = w.send(entry, sf, 4); break;
            case 2: fu = w.send(entry, std::move(sf), 4); break;
            case 3: fu = w.send(entry, std::ref(c)); expect = 1; break;
            case 4: fu = w.send(entry, c); expect = 1; break;
            case 5: fu = w.send(entry, &plain, big); break;
            case 6: fu = w.send(entry, [&seen, k = 3]() mutable { seen = ++k; return 8; }); break;
            case 7: fu = w.send(entry, [&seen](int a, std::string s, const std::vector<int>& v, std::unique_ptr<int> q) {
                        seen = a == 1 && s == "a string that is long enough for the heap" && v.size() == 3 && v[2] == 9 && *q == 6 ? 4 : 0; return 8; },
                        1, std::string("a string that is long enough for the heap"), std::vector<int>{7, 8, 9}, std::make_unique<int>(6)); break;
        }
        w.finish(fu, seen, expect);
        if(kind == 3 && fu) { fu = w.send(entry, std::ref(c)); w.finish(fu, seen, 2); }
        // reads after the thread is gone
        w.t.join();
        w.pool.reset();
        if(kind == 3) MC_CHECK(entry == e_async_fresh || c.n == (fu ? 2 : 1), "the referenced callable is the one that ran (%d)", c.n);
        if(kind == 4) MC_CHECK(c.n == 0, "the caller's callable was used instead of a copy");
    }
}
SCENARIO(member_functions, 99, 99, 0, 0)
{
    World w;
    int where = mc::choose(2, "where"), late = mc::choose(2, "late"), err = mc::choose(2, "error");
    tpp::promise<int> p;
    auto f = p.get_future();
    Explore e;
    auto set = [&] { if(err) p.set_exception(std::make_exception_ptr(Oops{3})); else p.set_value(3); };
    if(late) set();
    auto r = f.then(where ? w.id : w.me, &tpp::future<int>::get);
    if(!late) set();
    MC_CHECK(get_code([&] { return r.get(); }) == (err ? 1003 : 3), "future::get as a continuation");
}

// an lvalue argument is an owned object of the task: changes stay inside
SCENARIO(owned_arguments, 99, 99, 0, 0)
{
    int entry = mc::choose(n_entries, "entry");
    mc::Var<int> seen{0};
    World w;
    int v = 7;
    Explore e;
    int fu = w.send(entry, [&seen](int& a) { seen = a; a = 99; return 8; }, v);
    MC_CHECK(v == 7, "changed through the argument");
    v = 8;
    w.finish(fu, seen, 7);
    MC_CHECK(v == 8, "changed through the argument");
}

// failing copies
namespace
{
struct Fragile : Obj
{
    bool bad = true;
    Fragile(Life& x, int val) : Obj(x, val) {}
    Fragile(const Fragile& o) : Obj(o), bad(o.bad) { if(bad) throw Oops{6}; }
    Fragile(Fragile&& o) noexcept : Obj(std::move(o)), bad(o.bad) {}
};
// cannot be moved; the given copy fails if it is made by the call
struct Brittle : Obj
{
    int bad = 0;
    tid caller = tt::get_id();
    Brittle(Life& x, int val) : Obj(x, val) {}
    Brittle(const Brittle& o) : Obj(o), bad(o.bad), caller(o.caller) { if(bad && (int)l->copied == bad && tt::get_id() == caller) throw Oops{6}; }
};
} // namespace
template<typename O>
static void failing_copy(int entry, int which, int nth)
{
    Life lf, la;
    mc::Var<int> seen{0};
    {
        World w;
        Fn<O> f{O(lf, 7), &seen};
        f.o.bad = which == 0 ? nth : 0;
        O a(la, 5);
        a.bad = which == 1 ? nth : 0;
        auto before = tpp::get_all_registered_threads().size();
        Explore e;
        int fu = 0, code = get_code([&] { return w.send(entry, f, a), 1; });
        MC_CHECK(code == 1006 || (nth > 1 && code == 1), "a failing copy gave %d", code);
        if(code == 1) // fewer copies
        {
            (which ? la : lf).copied.add(100);
            w.finish(w.fut.valid(), seen, 705);
            return;
        }
        MC_CHECK(!w.fut.valid(), "a future in spite of the failing copy");
        tt::process();
        mc::settle();
        MC_CHECK(seen == 0, "ran in spite of the failing copy");
        MC_CHECK((int)lf.live == 1 && (int)la.live == 1, "library kept something alive (%d, %d)", (int)lf.live, (int)la.live);
        MC_CHECK(w.pool->get_jobs_count() == 0, "a job is left");
        MC_CHECK(tpp::get_all_registered_threads().size() == before, "a thread is left");
        f.o.bad = a.bad = false;
        fu = w.send(entry, f, a);
        w.finish(fu, seen, 705);
        MC_CHECK((int)lf.live == 1 && (int)la.live == 1, "library kept something alive (%d, %d)", (int)lf.live, (int)la.live);
    }
    MC_CHECK((int)lf.live == 0 && (int)la.live == 0, "instances left");
}
// copying fails: the caller is told, nothing is sent, everything goes on working
SCENARIO(failing_copies, 5, 6, 0, 0)
{
    int entry = mc::choose(n_entries, "entry"), which = mc::choose(2, "which");
    failing_copy<Fragile>(entry, which, 1);
}
// the same with objects that can only be copied, at any of the copies made
SCENARIO(failing_moves, 3, 4, 0, 0)
{
    int entry = mc::choose(n_entries, "entry"), which = mc::choose(2, "which"), nth = mc::choose(6, "nth");
    failing_copy<Brittle>(entry, which, nth + 1);
}
// the same for continuations
SCENARIO(failing_copies_then, 99, 99, 0, 0)
{
    int late = mc::choose(2, "late"), shared = mc::choose(2, "shared"), where = mc::choose(3, "where");
    Life l;
    mc::Count ran;
    {
        World w;
        tpp::promise<int> p;
        auto f = p.get_future();
        tpp::shared_future<int> sf;
        if(shared) sf = f.share();
        Fragile o(l, 7);
        o.bad = false;
        struct Cont
        {
            Fragile o;
            mc::Count* ran;
            int operator()(tpp::future<int> x) { ran->add(); return x.get(); }
            int operator()(tpp::shared_future<int> x) { ran->add(); return x.get(); }
        };
        Cont c{o, &ran};
        c.o.bad = true;
        auto before = tpp::get_all_registered_threads().size();
        Explore e;
        if(late) p.set_value(5);
        auto attach = [&] {
            if(where == 2) { if(shared) sf.then(c); else f.then(c); }
            else if(shared) sf.then(where ? w.id : w.me, c);
            else f.then(where ? w.id : w.me, c);
            return 1;
        };
        MC_CHECK(get_code(attach) == 1006, "a failing copy was not reported");
        if(!late) p.set_value(5);
        tt::process();
        mc::settle();
        MC_CHECK((int)ran == 0, "ran in spite of the failing copy");
        MC_CHECK((int)l.live == 2, "library kept the continuation alive (%d)", (int)l.live);
        MC_CHECK(tpp::get_all_registered_threads().size() == before, "a thread is left");
        if(shared) MC_CHECK(sf.get() == 5, "the future is unusable");
    }
    MC_CHECK((int)l.live == 0, "instances left");
}
// and for values: the promise can still be satisfied
SCENARIO(failing_values, 99, 99, 0, 0)
{
    int waiter = mc::choose(2, "waiter");
    Session s;
    Life l;
    {
        tpp::promise<Fragile> p;
        auto f = p.get_future();
        Fragile v(l, 3);
        mc::Var<int> got{0};
        Explore e;
        tpp::thread t;
        if(waiter) t = tpp::thread([&] { tt::register_this_thread(); got = f.get().v; tt::unregister_this_thread(); });
        MC_CHECK(get_code([&] { p.set_value(v); return 1; }) == 1006, "a failing copy was not reported");
        if(!waiter) MC_CHECK(!f.is_ready(), "ready without a value");
        v.bad = false;
        p.set_value(v);
        if(waiter) t.join();
        else got = f.get().v;
        MC_CHECK(got == 3, "got %d", (int)got);
    }
    MC_CHECK((int)l.live == 0, "instances left: %d", (int)l.live);
}

namespace
{
struct Worker
{
    int n = 0;
    mc::Var<int>* seen;
    int add(int d) { *seen = n += d; return 8; }
    int peek() const { *seen = n + 7; return 8; }
    int other(Worker& w) { w.n += 3; *seen = w.n; return 8; }
};
} // namespace
// arguments in std::ref are passed by reference, arrays as pointers, member functions are called on their object
SCENARIO(argument_kinds, 5, 6, 0, 0)
{
    int entry = mc::choose(n_entries, "entry"), kind = mc::choose(11, "kind");
    mc::Var<int> seen{0};
    {
        World w;
        Worker a{0, &seen}, b{0, &seen};
        int x = 4;
        const int cx = 4;
        auto wrapped = std::ref(x);
        Explore e;
        int fu = 0, expect = 7;
        switch(kind)
        {
            case 0: fu = w.send(entry, [&seen](int& y) { seen = y += 3; return 8; }, std::ref(x)); break;
            case 1: fu = w.send(entry, [&seen](const int& y) { seen = y + 3; return 8; }, std::cref(cx)); break;
            case 2: fu = w.send(entry, [&seen](int& y) { seen = y += 3; return 8; }, wrapped); break;
            case 3: fu = w.send(entry, [&seen](std::string t) { seen = t == "some text" ? 7 : 0; return 8; }, "some text"); break;
            case 4: fu = w.send(entry, [&seen](const char* t, int& y, int z) { seen = t + std::string("!") == "text!" ? y += z : 0; return 8; }, "text", std::ref(x), 3); break;
            case 5: fu = w.send(entry, &Worker::add, &a, 7); break;
            case 6: fu = w.send(entry, &Worker::add, a, 7); break;
            case 7: fu = w.send(entry, &Worker::add, std::ref(a), 7); break;
            case 8: fu = w.send(entry, &Worker::peek, a); break;
            case 9: fu = w.send(entry, &Worker::other, &a, std::ref(b)); expect = 3; break;
            case 10:
            {
                auto p = std::make_unique<Worker>(a);
                fu = w.send(entry, &Worker::add, std::move(p), 7);
                break;
            }
        }
        w.finish(fu, seen, expect);
        // reads after the threads are gone
        w.t.join();
        w.pool.reset();
        if(entry != e_async_fresh)
        {
            MC_CHECK(x == (kind == 0 || kind == 2 || kind == 4 ? 7 : 4), "argument of the caller is %d", x);
            MC_CHECK(a.n == (kind == 5 || kind == 7 ? 7 : 0) && b.n == (kind == 9 ? 3 : 0), "objects of the caller are %d, %d", a.n, b.n);
        }
    }
}

// the same task object sent several times: every send has its own copy
SCENARIO(sent_twice, 2, 3, 0, 0)
{
    int e1 = mc::choose(n_entries, "first"), e2 = mc::choose(n_entries, "second");
    Life l;
    mc::Var<int> seen{0}, seen2{0};
    {
        World w;
        Fn<Obj> f{Obj(l, 7), &seen};
        Explore e;
        int a = w.send(e1, f);
        auto first = std::move(w.fut);
        f.seen = &seen2;
        f.o.v = 7;
        int b = w.send(e2, f);
        auto second = std::move(w.fut);
        if(a) MC_CHECK(first.get() == 8, "first");
        if(b) MC_CHECK(second.get() == 8, "second");
        tt::process();
        mc::settle();
        MC_CHECK(seen == 7 && seen2 == 7, "both ran with their own copy");
        MC_CHECK((int)l.live == 1, "library kept a copy");
    }
}
