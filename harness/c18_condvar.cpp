#include "common.h"
// C18: condition variable: no notification is lost and the lock is held on return.

namespace
{
enum { k_wait, k_for, k_until, n_kinds };
// returns true if the call says it was not a timeout
bool cv_enter(tpp::condition_variable& cv, std::unique_lock<std::mutex>& l, int kind)
{
    std::cv_status r = std::cv_status::no_timeout;
    if(kind == k_wait) cv.wait(l);
    else if(kind == k_for) r = cv.wait_for(l, 1h);
    else r = cv.wait_until(l, std::chrono::steady_clock::now() + 1h);
    MC_CHECK(l.owns_lock(), "lock not held when wait returned");
    return r == std::cv_status::no_timeout;
}
struct Waiter // registered raw thread blocked once in the condition variable
{
    mc::Var<int> state{0}; // 1 holds the lock and is about to wait, 2 returned
    mc::Var<tid> id{0};
    std::unique_ptr<Raw> t;
    template<typename Before>
    void start(tpp::condition_variable& cv, std::mutex& m, int kind, int& inside, Before before)
    {
        t = std::make_unique<Raw>([&, kind, before] {
            tt::register_this_thread();
            id = tt::get_id();
            before();
            {
                std::unique_lock<std::mutex> l(m);
                state = 1;
                ++inside; // protected by m
                MC_CHECK(cv_enter(cv, l, kind), "wait ended by timeout");
                --inside; // unsynchronised access shows up as a race if the lock is not held
                state = 2;
            }
            tt::unregister_this_thread();
        });
    }
};
} // namespace

// a notification sent after the waiter released the lock is never lost
SCENARIO(notify_after_release, 8, 99, 0, 0)
{
    int kind = mc::choose(n_kinds, "kind"), all = mc::choose(2, "all"), locked = mc::choose(2, "notify while locked"), work = mc::choose(3, "tasks");
    Session s;
    tpp::condition_variable cv;
    std::mutex m;
    int inside = 0;
    mc::Count ran;
    Waiter w;
    Gate g;
    w.start(cv, m, kind, inside, [&] { g.pass(); });
    mc::settle();
    auto t0 = mc::now();
    {
        Explore e;
        g.open();
        for(int i = 0; i < work; ++i) tpp::invoke(w.id, [&] { std::lock_guard<std::mutex> l(m); ran.add(); });
        for(;;)
        {
            std::unique_lock<std::mutex> l(m);
            if(inside == 0 && w.state == 0) { l.unlock(); std::this_thread::yield(); continue; }
            if(!locked) l.unlock();
            if(all) cv.notify_all();
            else cv.notify_one();
            break;
        }
        mc::settle();
        MC_CHECK(w.state == 2, "waiter not released by a notification sent after it had released the lock");
    }
    w.t.reset();
    MC_CHECK(mc::now() - t0 < 1000000, "released by timeout");
    MC_CHECK((int)ran <= work, "task count");
}

// two waiters: notify_all releases both, one notify_one exactly one, two release both
SCENARIO(two_waiters, 99, 99, 0, 0)
{
    int how = mc::choose(4, "how"), ka = mc::choose(2, "a"), kb = mc::choose(2, "b");
    Session s;
    tpp::condition_variable cv;
    std::mutex m;
    int inside = 0;
    Waiter a, b;
    a.start(cv, m, ka, inside, [] {});
    b.start(cv, m, kb, inside, [] {});
    mc::settle();
    MC_CHECK(a.state == 1 && b.state == 1, "both wait");
    {
        Explore e;
        if(how == 0) cv.notify_all();
        else if(how == 3) { Raw r([&] { cv.notify_one(); }); cv.notify_one(); }
        else for(int i = 0; i < how; ++i) cv.notify_one();
        mc::settle();
    }
    int out = (a.state == 2) + (b.state == 2);
    MC_CHECK(out == (how == 1 ? 1 : 2), "%d waiters released", out);
    {
        MC_CHECK(m.try_lock(), "lock is free while the others are blocked");
        m.unlock();
    }
    cv.notify_one();
    mc::settle();
    MC_CHECK(a.state == 2 && b.state == 2, "remaining waiter released by the next notify_one");
    a.t.reset();
    b.t.reset();
}
// three waiters and mixed notifications
SCENARIO(three_waiters, 99, 99, 0, 0)
{
    int ones = 1 + mc::choose(3, "ones");
    Session s;
    tpp::condition_variable cv;
    std::mutex m;
    int inside = 0;
    Waiter w[3];
    for(auto& x : w) x.start(cv, m, k_wait, inside, [] {});
    mc::settle();
    {
        Explore e;
        for(int i = 0; i < ones; ++i) cv.notify_one();
        mc::settle();
    }
    int out = 0;
    for(auto& x : w) out += x.state == 2;
    MC_CHECK(out == ones, "%d waiters released by %d notify_one", out, ones);
    cv.notify_all();
    mc::settle();
    for(auto& x : w) MC_CHECK(x.state == 2, "notify_all released all");
    for(auto& x : w) x.t.reset();
}

// producer and consumer with the usual loop
SCENARIO(producer_consumer, 8, 99, 0, 0)
{
    int kind = mc::choose(n_kinds, "kind"), items = 1 + mc::choose(2, "items"), all = mc::choose(2, "all"), locked = mc::choose(2, "locked");
    Session s;
    tpp::condition_variable cv;
    std::mutex m;
    int queue = 0, taken = 0;
    auto t0 = mc::now();
    {
        Explore e;
        Raw p([&] {
            for(int i = 0; i < items; ++i)
            {
                std::unique_lock<std::mutex> l(m);
                ++queue;
                if(!locked) l.unlock();
                if(all) cv.notify_all();
                else cv.notify_one();
            }
        });
        while(taken < items)
        {
            std::unique_lock<std::mutex> l(m);
            while(queue == 0) MC_CHECK(cv_enter(cv, l, kind), "timeout");
            --queue;
            ++taken;
        }
    }
    MC_CHECK(mc::now() - t0 < 1000000, "time passed");
}
// two consumers, one notify_one per item
SCENARIO(two_consumers, 7, 8, 0, 0)
{
    Session s;
    tpp::condition_variable cv;
    std::mutex m;
    int queue = 0;
    mc::Var<int> done{0};
    auto consumer = [&] {
        tt::register_this_thread();
        {
            std::unique_lock<std::mutex> l(m);
            while(queue == 0) cv.wait(l);
            --queue;
        }
        done++;
        tt::unregister_this_thread();
    };
    {
        Explore e;
        Raw a(consumer);
        Raw b(consumer);
        for(int i = 0; i < 2; ++i)
        {
            { std::lock_guard<std::mutex> l(m); ++queue; }
            cv.notify_one();
        }
        mc::settle();
        MC_CHECK(done == 2, "%d of 2 consumers got an item", done.get());
    }
}

// nobody notifies: stays blocked, serving tasks with the lock free
SCENARIO(stays_blocked, 8, 99, 0, 1)
{
    int kind = mc::choose(n_kinds, "kind"), noise = mc::choose(4, "noise");
    Session s;
    tpp::condition_variable cv, other;
    std::mutex m;
    int inside = 0;
    mc::Count ran;
    Waiter w;
    Gate g;
    w.start(cv, m, kind, inside, [&] { g.pass(); });
    mc::settle();
    {
        Explore e;
        g.open();
        if(noise == 0) tpp::notify(w.id);
        if(noise == 1) for(int i = 0; i < 2; ++i) tpp::invoke(w.id, [&] { std::lock_guard<std::mutex> l(m); ran.add(); });
        if(noise == 2) { other.notify_all(); other.notify_one(); }
        if(noise == 3) tpp::invoke(w.id, [&] { ran.add(2); std::unique_lock<std::mutex> l(m); other.wait_for(l, 1us); });
        mc::settle();
    }
    MC_CHECK(w.state == 1, "wait returned without a notification");
    if(noise == 1 || noise == 3)
    {
        if(noise == 3) std::this_thread::sleep_for(1ms), mc::settle();
        MC_CHECK((int)ran == 2, "blocked thread did not serve its tasks");
    }
    MC_CHECK(w.state == 1, "wait returned without a notification");
    MC_CHECK(m.try_lock(), "lock is held while the thread is blocked");
    m.unlock();
    cv.notify_one();
    mc::settle();
    MC_CHECK(w.state == 2, "released");
    w.t.reset();
}

// the same thread waits on the same condition variable from a task it serves
SCENARIO(nested_same_cv, 3, 99, 0, 0)
{
    int kind = mc::choose(n_kinds, "kind"), inner_kind = mc::choose(n_kinds, "inner kind"), all = mc::choose(2, "all");
    Session s;
    tpp::condition_variable cv;
    std::mutex m;
    int inside = 0;
    bool flag = false;
    mc::Var<int> inner{0};
    mc::Var<bool> outer{false};
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    auto loop = [&](int k) {
        std::unique_lock<std::mutex> l(m);
        while(!flag) MC_CHECK(cv_enter(cv, l, k), "timeout");
    };
    tpp::invoke(id, [&] { loop(kind); outer = true; });
    tpp::invoke(id, [&] { inner = 1; loop(inner_kind); inner = 2; });
    mc::settle();
    MC_CHECK(inner == 1 && !outer, "both wait");
    {
        Explore e;
        { std::lock_guard<std::mutex> l(m); flag = true; }
        if(all) cv.notify_all();
        else cv.notify_one();
        mc::settle();
    }
    MC_CHECK(inner == 2, "inner wait not released");
    // with one notify_one only one of the two waits must end, but a released inner wait that sees nothing left
    // to do must not leave the outer one asleep if everybody was notified
    if(!all) { cv.notify_one(); mc::settle(); }
    MC_CHECK(outer, "outer wait not released");
    (void)inside;
}
// the inner wait expires; the outer one must still be notified
SCENARIO(nested_expires, 3, 99, 0, 0)
{
    int kind = mc::choose(n_kinds, "kind"), all = mc::choose(2, "all"), levels = 1 + mc::choose(2, "levels");
    Session s;
    tpp::condition_variable cv;
    std::mutex m;
    mc::Var<int> inner{0};
    int inside = 0;
    Waiter w;
    w.start(cv, m, kind, inside, [] {});
    mc::settle();
    for(int i = 0; i < levels; ++i)
        tpp::invoke(w.id, [&] { std::unique_lock<std::mutex> l(m); MC_CHECK(cv.wait_for(l, 1ms) == std::cv_status::timeout, "inner wait expires"); inner++; });
    std::this_thread::sleep_for(100ms);
    mc::settle();
    MC_CHECK(inner == levels && w.state == 1, "inner waits expired");
    {
        Explore e;
        if(all) cv.notify_all();
        else cv.notify_one();
        mc::settle();
    }
    MC_CHECK(w.state == 2, "wait lost its notification after a nested wait on the same condition variable expired");
    w.t.reset();
}

// an expired wait leaves nothing behind: the notification goes to the thread that still waits
SCENARIO(expired_does_not_steal, 2, 3, 0, 0)
{
    Session s;
    tpp::condition_variable cv;
    std::mutex m;
    int inside = 0;
    Waiter w;
    {
        std::unique_lock<std::mutex> l(m);
        MC_CHECK(cv.wait_for(l, 1ms) == std::cv_status::timeout && l.owns_lock(), "expired");
    }
    w.start(cv, m, mc::choose(n_kinds, "kind"), inside, [] {});
    mc::settle();
    {
        Explore e;
        cv.notify_one();
        mc::settle();
    }
    MC_CHECK(w.state == 2, "notification went to a wait that had expired");
    w.t.reset();
}
// expiring and notifying race: either outcome, lock held, and with two waiters one notification suffices for the other
SCENARIO(expiry_race, 8, 9, 1, 0)
{
    Session s;
    tpp::condition_variable cv;
    std::mutex m;
    int owned = 0;
    mc::Var<int> st{0};
    {
        Explore e;
        Raw r([&] {
            std::this_thread::sleep_for(1ms);
            std::lock_guard<std::mutex> l(m);
            ++owned;
            cv.notify_one();
        });
        std::unique_lock<std::mutex> l(m);
        if(owned == 0)
        {
            auto t0 = mc::now();
            auto st2 = cv.wait_for(l, 1ms);
            MC_CHECK(l.owns_lock(), "lock held");
            MC_CHECK(owned == 1 || mc::now() - t0 >= 999000, "returned without notification before its deadline");
            (void)st2;
        }
    }
}

// exit releases the wait, with the lock held
SCENARIO(exit_ends_wait, 99, 99, 0, 0)
{
    int kind = mc::choose(n_kinds, "kind"), notify_too = mc::choose(2, "notify too");
    Session s;
    tpp::condition_variable cv;
    std::mutex m;
    int inside = 0;
    Waiter w;
    Gate g;
    w.start(cv, m, kind, inside, [&] { g.pass(); });
    mc::settle();
    {
        Explore e;
        g.open();
        std::unique_ptr<Raw> r;
        if(notify_too) r = std::make_unique<Raw>([&] { cv.notify_all(); });
        tpp::notify_for_exit(w.id);
        r.reset();
        mc::settle();
    }
    MC_CHECK(w.state == 2, "wait did not return after the exit notification");
    w.t.reset();
    // and leaves nothing behind
    cv.notify_all();
}
// a wait that ended for another reason takes no notification away from those who still wait
SCENARIO(ended_otherwise, 3, 4, 0, 0)
{
    int how = mc::choose(5, "how"), kind = mc::choose(n_kinds, "kind"), kind2 = mc::choose(n_kinds, "kind of the other");
    int gone = mc::choose(2, "gone"), first = mc::choose(2, "waits first");
    if(how == 3 && kind == k_wait) return;
    Session s;
    tpp::condition_variable cv;
    std::mutex m;
    int inside = 0;
    mc::Var<int> state{0};
    mc::Var<tid> id{0};
    Gate begin, end;
    Waiter w;
    {
        Raw r([&] {
            if(how != 4) tt::register_this_thread();
            id = tt::get_id();
            begin.pass();
            if(how == 0) tpp::notify_for_exit(id);
            state = 1;
            try
            {
                std::unique_lock<std::mutex> l(m);
                if(how == 3 && kind == k_for) cv.wait_for(l, 1ms);
                else if(how == 3) cv.wait_until(l, std::chrono::steady_clock::now() + 1ms);
                else if(kind == k_wait) cv.wait(l);
                else if(kind == k_for) cv.wait_for(l, 1h);
                else cv.wait_until(l, std::chrono::steady_clock::now() + 1h);
                MC_CHECK(l.owns_lock(), "lock not held when wait returned");
            }
            catch(int)
            {
                MC_CHECK(how == 2, "exception");
            }
            state = 2;
            if(gone && how != 4) tt::unregister_this_thread();
            end.pass();
            if(!gone && how != 4) tt::unregister_this_thread();
        });
        if(first)
        {
            mc::settle();
            begin.open();
            mc::settle();
        }
        Gate g;
        w.start(cv, m, kind2, inside, [&] { g.pass(); });
        mc::settle();
        {
            Explore e;
            g.open();
            if(!first) begin.open();
            // it is waiting, or has left already
            while(state == 0) std::this_thread::yield();
            if(how == 1) tpp::notify_for_exit(id);
            if(how == 2) tpp::invoke(id, [] { throw 1; });
            mc::settle();
        }
        if(how == 3 && state != 2)
        {
            tt::sleep_for(2ms);
            mc::settle();
        }
        MC_CHECK(state == 2, "the other wait did not end");
        MC_CHECK(w.state == 1, "waiter released without a notification");
        auto t0 = mc::now();
        cv.notify_one();
        mc::settle();
        MC_CHECK(w.state == 2, "waiter not released: the notification went to a wait that had ended before");
        MC_CHECK(mc::now() - t0 < 1000000, "released by timeout");
        end.open();
    }
    w.t.reset();
}
// notify without waiters is forgotten
SCENARIO(no_memory, 0, 0, 0, 0)
{
    Session s;
    tpp::condition_variable cv;
    std::mutex m;
    cv.notify_one();
    cv.notify_all();
    std::unique_lock<std::mutex> l(m);
    auto t0 = mc::now();
    auto r = cv.wait_for(l, 1ms);
    MC_CHECK(r == std::cv_status::timeout && l.owns_lock() && mc::now() - t0 >= 999000, "earlier notification was remembered");
    r = cv.wait_until(l, std::chrono::steady_clock::now() + 1ms);
    MC_CHECK(r == std::cv_status::timeout && l.owns_lock(), "wait_until");
}

// the notification comes from a task served by the waiting thread itself, at any nesting level
SCENARIO(notified_by_own_task, 99, 99, 0, 0)
{
    int kind = mc::choose(n_kinds, "kind"), all = mc::choose(2, "all"), locked = mc::choose(2, "locked"), levels = mc::choose(3, "levels");
    Session s;
    tpp::condition_variable cv, other;
    std::mutex m;
    int inside = 0;
    Waiter w;
    Gate g;
    w.start(cv, m, kind, inside, [&] { g.pass(); });
    mc::settle();
    mc::Var<int> sent{0};
    std::function<void(int)> task = [&](int n) {
        if(n > 0)
        {
            tpp::invoke(w.id, [&, n] { task(n - 1); });
            while(!sent) tt::wait();
            return;
        }
        std::unique_lock<std::mutex> l(m);
        sent = 1;
        if(!locked) l.unlock();
        if(all) cv.notify_all();
        else cv.notify_one();
    };
    auto t0 = mc::now();
    {
        Explore e;
        g.open();
        {
            // make sure it waits before the notification
            for(;;)
            {
                std::unique_lock<std::mutex> l(m);
                if(inside) break;
                l.unlock();
                std::this_thread::yield();
            }
        }
        tpp::invoke(w.id, [&] { task(levels); });
        mc::settle();
    }
    MC_CHECK(sent == 1 && w.state == 2, "wait not released by a notification from a task it served");
    MC_CHECK(mc::now() - t0 < 1000000, "released by timeout");
    w.t.reset();
}
// two waiters of which the first is busy with a task: one notification releases exactly one of them, two release both
SCENARIO(busy_waiter, 99, 99, 0, 0)
{
    int ones = 1 + mc::choose(2, "ones"), all = mc::choose(2, "all"), kind = mc::choose(n_kinds, "kind"), by_task = mc::choose(2, "by the task");
    Session s;
    tpp::condition_variable cv;
    std::mutex m;
    int inside = 0;
    Waiter a, b;
    Gate g;
    mc::Var<int> busy{0};
    a.start(cv, m, kind, inside, [] {});
    mc::settle();
    b.start(cv, m, k_wait, inside, [] {});
    mc::settle();
    auto notify = [&] {
        if(all) cv.notify_all();
        else for(int i = 0; i < ones; ++i) cv.notify_one();
    };
    {
        Explore e;
        tpp::invoke(a.id, [&] { busy = 1; if(by_task) notify(); g.pass(); });
        mc::settle();
        MC_CHECK(busy == 1, "waiting thread serves its task");
        if(!by_task) notify();
        mc::settle();
        if(all || ones == 2) MC_CHECK(b.state == 2, "idle waiter is not released while the other one is busy");
        g.open();
        mc::settle();
    }
    int out = (a.state == 2) + (b.state == 2);
    MC_CHECK(out == (all || ones == 2 ? 2 : 1), "%d waiters released", out);
    cv.notify_all();
    mc::settle();
    a.t.reset();
    b.t.reset();
}

// programs of waits and notifications, the waiters being idle or busy with a task: as many are released as were notified
static void programs(int n, int ops, bool interleave)
{
    Session s;
    tpp::condition_variable cv;
    std::mutex m;
    int inside = 0;
    std::vector<std::unique_ptr<Waiter>> w;
    Gate g;
    mc::Count busy;
    int waiting = 0, released = 0, used = 0;
    bool busy_mode[4] = {};
    for(int i = 0; i < ops; ++i)
    {
        int op = mc::choose(4, "op");
        if(op <= 1)
        {
            if(used == n) continue;
            busy_mode[used] = op == 1;
            w.push_back(std::make_unique<Waiter>());
            w.back()->start(cv, m, used % n_kinds, inside, [] {});
            mc::settle();
            if(op == 1)
            {
                tpp::invoke(w.back()->id, [&] { busy.add(); g.pass(); });
                mc::settle();
            }
            ++used;
            ++waiting;
        }
        else
        {
            if(op == 2) { if(waiting) { --waiting; ++released; } }
            else { released += waiting; waiting = 0; }
            if(interleave) mc::explore(true);
            if(op == 2) cv.notify_one();
            else cv.notify_all();
            if(!interleave || mc::choose(2, "settle")) mc::settle();
            if(interleave) mc::explore(false);
        }
    }
    mc::settle();
    g.open();
    mc::settle();
    int out = 0;
    for(auto& x : w) out += x->state == 2;
    MC_CHECK(out == released, "%d of %d waiters were released, %d were notified", out, used, released);
    cv.notify_all();
    mc::settle();
    for(auto& x : w) MC_CHECK(x->state == 2, "released in the end");
    w.clear();
}
SCENARIO(notification_programs, 0, 0, 0, 0) { programs(4, mc_thorough() ? 7 : 6, false); }
SCENARIO(notification_programs_interleaved, 99, 99, 0, 0) { programs(3, 4, true); }
