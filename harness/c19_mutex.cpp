#include "common.h"
// C19: mutex: mutual exclusion, no lost handover, ownership errors.

namespace
{
int err_code(std::function<void()> f)
{
    try { f(); }
    catch(const std::system_error& e) { return e.code() == std::errc::resource_deadlock_would_occur ? 2 : 1; }
    return 0;
}
struct Shared
{
    tpp::mutex m;
    int inside = 0;  // plain: a failure of exclusion or of visibility is a data race
    int total = 0;
    void critical()
    {
        MC_CHECK(inside == 0, "two threads inside the mutex");
        inside = 1;
        ++total;
        mc::yield();
        MC_CHECK(inside == 1, "two threads inside the mutex");
        inside = 0;
    }
};
} // namespace

static void contend(int n, int rounds, bool use_try)
{
    Session s;
    Shared x;
    mc::Var<int> done{0};
    {
        Explore e;
        auto body = [&](bool tr) {
            tt::register_this_thread();
            for(int i = 0; i < rounds; ++i)
            {
                if(tr && x.m.try_lock()) {}
                else x.m.lock();
                x.critical();
                x.m.unlock();
            }
            done++;
            tt::unregister_this_thread();
        };
        std::vector<std::unique_ptr<Raw>> r;
        for(int i = 0; i < n; ++i) r.push_back(std::make_unique<Raw>([&, i] { body(use_try && i == 0); }));
        mc::settle();
        MC_CHECK(done == n, "%d of %d threads got the mutex and finished", done.get(), n);
    }
    MC_CHECK(x.total == n * rounds, "%d critical sections", x.total);
    MC_CHECK(x.m.try_lock(), "free at the end");
    x.m.unlock();
}
SCENARIO(two_threads, 5, 99, 0, 0) { contend(2, 1 + mc::choose(2, "rounds"), mc::choose(2, "try")); }
SCENARIO(three_threads, 3, 4, 0, 0) { contend(3, 1, mc::choose(2, "try")); }

// a blocked locker serves tasks, keeps waiting while it is owned, acquires on release
SCENARIO(serves_while_waiting, 99, 99, 0, 0)
{
    int noise = mc::choose(3, "noise");
    Session s;
    Shared x;
    mc::Count ran;
    mc::Var<int> st{0};
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    mc::settle();
    x.m.lock();
    {
        Explore e;
        tpp::invoke(id, [&] { st = 1; x.m.lock(); st = 2; x.critical(); x.m.unlock(); st = 3; });
        if(noise == 0) tpp::notify(id);
        else for(int i = 0; i < noise; ++i) tpp::invoke(id, [&] { ran.add(); });
        mc::settle();
        MC_CHECK(st == 1, "lock returned while another thread owns the mutex");
        MC_CHECK((int)ran == noise, "%d of %d tasks served by the waiting thread", (int)ran, noise);
        x.critical();
        x.m.unlock();
        mc::settle();
    }
    MC_CHECK(st == 3, "waiting thread did not get the free mutex");
    t.join();
    MC_CHECK(x.total == 2, "two critical sections");
}
// the served task locks the same mutex
SCENARIO(nested_lock, 8, 9, 0, 0)
{
    int inner_try = mc::choose(2, "inner"), depth = 1 + mc::choose(2, "depth");
    Session s;
    Shared x;
    mc::Count ran;
    mc::Var<int> st{0};
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    mc::settle();
    x.m.lock();
    {
        Explore e;
        tpp::invoke(id, [&] { x.m.lock(); x.critical(); x.m.unlock(); st = 1; });
        for(int i = 0; i < depth; ++i)
            tpp::invoke(id, [&] {
                if(inner_try) { if(x.m.try_lock()) { x.critical(); x.m.unlock(); } }
                else { x.m.lock(); x.critical(); x.m.unlock(); }
                ran.add();
            });
        x.critical();
        x.m.unlock();
        mc::settle();
    }
    MC_CHECK((int)ran == depth && st == 1, "a waiting lock was not handed the free mutex (%d %d)", (int)ran, st.get());
}

// errors by the owner and by others, sequences of operations against a reference
SCENARIO(sequences, 0, 0, 0, 0)
{
    Session s;
    tpp::mutex m;
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    mc::settle();
    int owner = 0; // 0 free, 1 main, 2 T
    int len = mc_thorough() ? 6 : 5;
    for(int i = 0; i < len; ++i)
    {
        int op = mc::choose(6, "op"), who = op % 2 + 1;
        auto act = [&]() -> int {
            if(op < 2) { if(owner != 0 && owner != who) return -1; return err_code([&] { m.lock(); }); }
            if(op < 4) { int r = -2; int c = err_code([&] { r = m.try_lock(); }); return c ? 100 + c : r; }
            return err_code([&] { m.unlock(); });
        };
        int r = who == 1 ? act() : tpp::async(id, act).get();
        if(op < 2)
        {
            int want = owner == 0 ? 0 : owner == who ? 2 : -1;
            MC_CHECK(r == want, "lock by %d, owner %d: %d", who, owner, r);
            if(owner == 0) owner = who;
        }
        else if(op < 4)
        {
            MC_CHECK(r == (owner == 0), "try_lock by %d, owner %d: %d", who, owner, r);
            if(owner == 0) owner = who;
        }
        else
        {
            MC_CHECK(owner == who ? r == 0 : r == 1 || r == 2, "unlock by %d, owner %d: %d", who, owner, r);
            if(owner == who) owner = 0;
        }
    }
    if(owner == 1) m.unlock();
    if(owner == 2) tpp::async(id, [&] { m.unlock(); }).get();
    MC_CHECK(m.try_lock(), "free");
    m.unlock();
}

// wrong unlocks and relocks race with a handover
SCENARIO(wrong_unlock_race, 8, 9, 0, 0)
{
    Session s;
    Shared x;
    mc::Var<int> wrong{-1}, again{-1};
    {
        Explore e;
        Raw a([&] {
            tt::register_this_thread();
            x.m.lock();
            again = err_code([&] { x.m.lock(); });
            x.critical();
            x.m.unlock();
            tt::unregister_this_thread();
        });
        Raw b([&] {
            tt::register_this_thread();
            wrong = err_code([&] { x.m.unlock(); }); // never owns it
            x.m.lock();
            x.critical();
            x.m.unlock();
            tt::unregister_this_thread();
        });
        a.join();
        b.join();
        a.t = std::thread([] {});
        b.t = std::thread([] {});
    }
    MC_CHECK(again == 2, "relock by the owner gave %d", again.get());
    MC_CHECK(wrong == 1 || wrong == 2, "unlock by a non-owner did not throw");
    MC_CHECK(x.total == 2, "sections");
}
// try_lock: true exactly when free
SCENARIO(try_lock_races, 99, 99, 0, 0)
{
    Session s;
    Shared x;
    mc::Var<int> a{-1}, b{-1};
    {
        Explore e;
        auto body = [&](mc::Var<int>& out) {
            tt::register_this_thread();
            out = x.m.try_lock();
            if(out == 1) x.critical();
            tt::unregister_this_thread();
        };
        Raw r([&] { body(a); });
        Raw q([&] { body(b); });
    }
    MC_CHECK(a + b == 1, "%d of two racing try_lock on a free mutex succeeded", a + b);
    MC_CHECK(!x.m.try_lock(), "owned mutex taken");
}
// works with the standard guards, and with data handed from owner to owner
SCENARIO(guards, 99, 99, 0, 0)
{
    Session s;
    Shared x;
    std::string data;
    {
        Explore e;
        Raw r([&] {
            tt::register_this_thread();
            { std::lock_guard<tpp::mutex> l(x.m); x.critical(); data += "r"; }
            tt::unregister_this_thread();
        });
        std::unique_lock<tpp::mutex> l(x.m, std::defer_lock);
        l.lock();
        x.critical();
        data += "m";
        l.unlock();
        MC_CHECK(!l.owns_lock(), "unlocked");
        if(l.try_lock()) data += "t";
    }
    MC_CHECK(data.size() >= 2, "both ran");
}
// mutex handed over while several wait, unlocked by a worker
SCENARIO(worker_unlocks, 4, 5, 0, 0)
{
    Session s;
    Shared x;
    mc::Var<int> got{0};
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    mc::settle();
    tpp::async(id, [&] { x.m.lock(); }).get();
    {
        Explore e;
        Raw a([&] { tt::register_this_thread(); x.m.lock(); x.critical(); got++; x.m.unlock(); tt::unregister_this_thread(); });
        tpp::invoke(id, [&] { x.m.unlock(); });
        x.m.lock();
        x.critical();
        got++;
        x.m.unlock();
        mc::settle();
        MC_CHECK(got == 2, "%d of 2 waiters got the mutex", got.get());
    }
}

// a waiting thread that is busy with a task when the mutex is released does not keep it from the others
SCENARIO(busy_waiter, 4, 5, 0, 0)
{
    int busy = mc::choose(3, "busy one"), how = mc::choose(3, "how"), by_task = mc::choose(2, "unlocked by a task");
    Session s;
    Shared x;
    const int N = 2;
    mc::Var<int> got[N];
    mc::Var<int> serving{0};
    tpp::thread t[N];
    for(auto& w : t) w = tpp::make_thread("T");
    auto o = tpp::make_thread("O");
    mc::settle();
    Gate g;
    tpp::promise<void> p;
    auto sf = p.get_future().share();
    if(by_task) tpp::async(o.get_id(), [&] { x.m.lock(); }).get();
    else x.m.lock();
    for(int i = 0; i < N; ++i)
    {
        tpp::invoke(t[i].get_id(), [&, i] { x.m.lock(); got[i] = 1; x.critical(); x.m.unlock(); });
        mc::settle();
    }
    for(int i = 0; i < N; ++i)
        if(i == busy || busy == N)
            tpp::invoke(t[i].get_id(), [&] {
                serving++;
                if(how == 0) g.pass();
                else if(how == 1) tpp::shared_future<void>(sf).wait();
                else while(!tpp::shared_future<void>(sf).is_ready()) tt::wait();
            });
    mc::settle();
    MC_CHECK(serving == (busy == N ? N : 1), "waiting threads serve their tasks");
    {
        Explore e;
        if(by_task) tpp::invoke(o.get_id(), [&] { x.m.unlock(); });
        else x.m.unlock();
        mc::settle();
        for(int i = 0; i < N; ++i)
            if(i != busy && busy != N) MC_CHECK(got[i] == 1, "mutex is free but a waiting thread does not get it");
        if(busy == N) { MC_CHECK(x.m.try_lock(), "mutex is free"); x.m.unlock(); }
    }
    g.open();
    p.set_value();
    for(int i = 0; i < N; ++i) tpp::notify(t[i].get_id());
    mc::settle();
    for(int i = 0; i < N; ++i) MC_CHECK(got[i] == 1, "thread %d did not get the mutex", i);
    MC_CHECK(x.m.try_lock(), "free at the end");
    MC_CHECK(x.total == N, "sections");
    x.m.unlock();
}
// a task thrown out of a waiting lock: the others still get the mutex, nobody owns it by accident
SCENARIO(thrown_out, 4, 5, 0, 0)
{
    Session s;
    Shared x;
    mc::Var<int> got{0}, thrown{0};
    auto a = tpp::make_thread("A");
    auto b = tpp::make_thread("B");
    mc::settle();
    x.m.lock();
    tpp::invoke(a.get_id(), [&] {
        try { x.m.lock(); got++; x.critical(); x.m.unlock(); }
        catch(const Oops&) { thrown = 1; }
    });
    mc::settle();
    tpp::invoke(b.get_id(), [&] { x.m.lock(); got++; x.critical(); x.m.unlock(); });
    mc::settle();
    {
        Explore e;
        Raw r([&] { tpp::invoke(a.get_id(), [&] { if(got < 1 && !thrown) throw Oops{1}; }); });
        x.m.unlock();
        mc::settle();
    }
    MC_CHECK(got + thrown == 2, "%d got the mutex, %d thrown out", got.get(), thrown.get());
    MC_CHECK(x.m.try_lock(), "free at the end");
    x.m.unlock();
}

// two mutexes taken together, in opposite orders; unlocking one gives nobody the other
SCENARIO(two_mutexes, 4, 5, 0, 0)
{
    int how = mc::choose(2, "how"), tasks = mc::choose(2, "tasks");
    Session s;
    Shared x, y;
    mc::Var<int> done{0};
    mc::Count served;
    auto both = [&](Shared& a, Shared& b) {
        if(how == 0) std::lock(a.m, b.m);
        else
        {
            x.m.lock(); // always this one first
            y.m.lock();
        }
        a.critical();
        b.critical();
        a.m.unlock();
        b.m.unlock();
        done++;
    };
    auto t = tpp::make_thread("T");
    auto u = tpp::make_thread("U");
    auto ti = t.get_id(), ui = u.get_id();
    mc::settle();
    if(tasks) { x.m.lock(); y.m.lock(); }
    {
        Explore e;
        tpp::invoke(ti, [&] { both(x, y); });
        tpp::invoke(ui, [&] { both(y, x); });
        if(tasks)
        {
            tpp::invoke(ti, [&] { served.add(); });
            if(how == 1)
            {
                mc::settle();
                MC_CHECK((int)served == 1, "task not served by a locking thread");
                y.m.unlock();
                mc::settle();
                MC_CHECK(done == 0, "owned mutex taken");
                x.m.unlock();
            }
            else
            {
                x.m.unlock();
                y.m.unlock();
            }
        }
        mc::settle();
        MC_CHECK(done == 2, "%d of 2 threads got both mutexes", done.get());
    }
    MC_CHECK(x.m.try_lock() && y.m.try_lock(), "free at the end");
    MC_CHECK(x.total == 2 && y.total == 2, "%d and %d critical sections", x.total, y.total);
    x.m.unlock();
    y.m.unlock();
    t.join();
    u.join();
}
