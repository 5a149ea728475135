#include "common.h"
// C28: an exception leaving a task leaves the thread's machinery consistent.

namespace
{
// one processing or blocking call of this thread; plain thread level calls as well
enum { k_process = Blocking::all_kinds, k_process_for, n_calls };

struct Calls
{
    Blocking b;
    int k;
    explicit Calls(int kind) : b(kind < Blocking::all_kinds ? kind : 0), k(kind) {}
    // returns the value of the exception, or 0
    int call()
    {
        try
        {
            if(k == k_process) tt::process();
            else if(k == k_process_for) tt::process_for(1h);
            else if(Blocking::is_cv(k))
            {
                std::unique_lock<std::mutex> l(b.m);
                try
                {
                    auto far = std::chrono::steady_clock::now() + 1h;
                    if(k == Blocking::cv_wait) b.cv.wait(l);
                    else if(k == Blocking::cv_wait_for) b.cv.wait_for(l, 1h);
                    else b.cv.wait_until(l, far);
                }
                catch(...)
                {
                    MC_CHECK(l.owns_lock(), "lock not held when the exception left the condition variable wait");
                    throw;
                }
                MC_CHECK(l.owns_lock(), "lock not held after the wait");
            }
            else if(k == Blocking::fut_get) b.f.get();
            else if(k == Blocking::fut_void_get) b.fv.get();
            else if(k == Blocking::shared_get) b.sf.get();
            else if(k == Blocking::shared_void_get) b.sfv.get();
            else b.call();
        }
        catch(const Oops& o)
        {
            return o.v;
        }
        return 0;
    }
    const char* name() { return k < Blocking::all_kinds ? kind_name(k) : k == k_process ? "process" : "process_for"; }
};
} // namespace

// the throwing task is there before the call, or arrives while the thread blocks
SCENARIO(every_call, 99, 99, 0, 0)
{
    int k = mc::choose(n_calls, "call"), before = mc::choose(2, "sent before");
    if(!before && (k == k_process || k == k_process_for)) return;
    Session s;
    Life life;
    mc::Count thrown;
    mc::Log<8> order;
    tid me = tt::get_id();
    {
        std::unique_ptr<tpp::thread> holder;
        Calls* cp;
        std::unique_ptr<Calls> c;
        Gate made, go;
        if(k == Blocking::mutex_lock)
        {
            // somebody else owns the mutex
            holder = std::make_unique<tpp::thread>([&] {
                tt::register_this_thread();
                c = std::make_unique<Calls>(k);
                made.open();
                go.pass();
                c->b.mx.unlock();
                tt::unregister_this_thread();
            });
            made.pass();
        }
        else c = std::make_unique<Calls>(k);
        mc::settle();
        cp = c.get();
        auto send = [&] {
            Tracked t(life);
            MC_CHECK(tpp::invoke(me, [&, t = std::move(t)] { thrown.add(); order.push(1); throw Oops{5}; }), "send");
            MC_CHECK(tpp::invoke(me, [&] { order.push(2); }), "send");
            MC_CHECK(tpp::invoke(me, [&] { order.push(3); }), "send");
        };
        {
            Explore e;
            int r;
            if(before)
            {
                send();
                r = cp->call();
            }
            else
            {
                Raw x([&] { send(); });
                r = cp->call();
                while(r == 0 && Blocking::is_thread_wait(k)) r = cp->call();
                x.join();
                x.t = std::thread([] {});
            }
            MC_CHECK(r == 5, "%s: the exception of the task did not reach the caller (got %d)", cp->name(), r);
        }
        MC_CHECK((int)thrown == 1, "task ran %d times", (int)thrown);
        MC_CHECK((int)life.live == 0, "%s: the throwing task was not destroyed", cp->name());
        MC_CHECK(tt::get_depth() == 0, "%s: depth %d after the exception", cp->name(), (int)tt::get_depth());
        int left = 3 - order.size();
        MC_CHECK((int)tpp::get_pending_task_count(me) == left, "%s: pending %d, expected %d", cp->name(), (int)tpp::get_pending_task_count(me), left);
        MC_CHECK(listed(me), "thread still registered");
        tt::process();
        MC_CHECK(order.size() == 3 && order[0] == 1 && order[1] == 2 && order[2] == 3, "remaining tasks in order");
        MC_CHECK(tpp::get_pending_task_count(me) == 0, "nothing pending");
        // the machinery still works: block in the same call and be released by the event
        if(k < Blocking::all_kinds && !Blocking::is_sleep(k))
        {
            if(k == Blocking::mutex_lock)
            {
                MC_CHECK(!cp->b.mx.try_lock(), "the mutex is still owned by the other thread");
                go.open();
                cp->b.mx.lock();
                cp->b.mx.unlock();
            }
            else
            {
                Raw x([&] { mc::settle(); cp->b.release(me); });
                cp->b.enter();
                MC_CHECK(cp->b.left == 1, "released");
            }
        }
        go.open();
        if(cp->b.pool) cp->b.pool_gate.open();
        if(holder) holder->join();
    }
    MC_CHECK((int)thrown == 1, "task ran again");
}

// no registration is left behind: the next notification belongs to the next waiter
SCENARIO(no_stale_waiter, 99, 99, 0, 0)
{
    int timed = mc::choose(3, "timed"), all = mc::choose(2, "all");
    Session s;
    tid me = tt::get_id();
    std::mutex m;
    tpp::condition_variable cv;
    mc::Var<int> woken{0};
    {
        auto w = tpp::make_thread("W");
        mc::settle();
        Explore e;
        tpp::invoke(me, [] { throw Oops{3}; });
        bool caught = false;
        {
            std::unique_lock<std::mutex> l(m);
            try
            {
                if(timed == 0) cv.wait(l);
                else if(timed == 1) cv.wait_for(l, 1h);
                else cv.wait_until(l, std::chrono::steady_clock::now() + 1h);
            }
            catch(const Oops&)
            {
                caught = true;
            }
            MC_CHECK(caught && l.owns_lock(), "exception with the lock held");
        }
        tpp::invoke(w.get_id(), [&] {
            std::unique_lock<std::mutex> l(m);
            cv.wait(l);
            woken = 1;
        });
        mc::settle();
        MC_CHECK(woken == 0, "woken too early");
        if(all) cv.notify_all();
        else cv.notify_one();
        mc::settle();
        MC_CHECK(woken == 1, "the notification went to a wait that is over");
        MC_CHECK(tpp::get_pending_task_count(me) == 0, "a notification was sent to a thread that does not wait");
        // and we can wait again ourselves
        Raw x([&] { mc::settle(); std::lock_guard<std::mutex> l(m); cv.notify_one(); });
        std::unique_lock<std::mutex> l(m);
        cv.wait(l);
        MC_CHECK(l.owns_lock(), "lock");
    }
}

// the same for a future: a second wait on the same future works, set_value delivers
SCENARIO(future_after_exception, 99, 99, 0, 0)
{
    Session s;
    tid me = tt::get_id();
    int rounds = 1 + mc::choose(2, "rounds"), timed = mc::choose(2, "timed");
    tpp::promise<int> p;
    auto f = p.get_future();
    for(int i = 0; i < rounds; ++i)
    {
        tpp::invoke(me, [] { throw Oops{3}; });
        bool caught = false;
        try { if(timed) f.wait_for(1h); else f.wait(); } catch(const Oops&) { caught = true; }
        MC_CHECK(caught, "exception");
        MC_CHECK(f.valid() && !f.is_ready(), "future untouched");
    }
    Explore e;
    Raw x([&] { p.set_value(4); });
    MC_CHECK(f.get() == 4, "value");
}

// get() keeps the future usable when a served task throws
SCENARIO(get_keeps_future, 0, 0, 0, 0)
{
    Session s;
    tid me = tt::get_id();
    tpp::promise<int> p;
    auto f = p.get_future();
    tpp::invoke(me, [] { throw Oops{3}; });
    MC_CHECK(get_code([&] { return f.get(); }) == 1003, "exception of the task");
    MC_CHECK(f.valid() && !f.is_ready(), "future untouched");
    p.set_value(9);
    MC_CHECK(f.get() == 9, "value");
}

// nested: the inner task throws through or is caught by the outer task
SCENARIO(nested, 1, 2, 0, 0)
{
    int levels = 2 + mc::choose(2, "levels"), catch_at = mc::choose(levels, "caught at"), how = mc::choose(4, "how");
    if(how >= 2 && catch_at > 1) return; // the outer task would wait for ever
    bool drained = how == 0 && catch_at > 1; // the outer task goes on processing
    Session s;
    tid me = tt::get_id();
    mc::Log<16> order;
    tpp::promise<int> p;
    auto f = p.get_future();
    std::mutex m;
    tpp::condition_variable cv;
    auto inner = [&] {
        switch(how)
        {
            case 0: tt::process(); break;
            case 1: tt::wait(); break;
            case 2: f.wait(); break;
            case 3: { std::unique_lock<std::mutex> l(m); cv.wait(l); break; }
        }
    };
    Explore e;
    // task i at depth i+1 serves the next one; the last one throws
    for(int i = 0; i < levels; ++i)
        tpp::invoke(me, [&, i] {
            order.push(10 + i);
            MC_CHECK((int)tt::get_depth() == i + 1, "depth %d in task %d", (int)tt::get_depth(), i);
            if(i == levels - 1) throw Oops{i};
            if(catch_at == i + 1)
            {
                bool caught = false;
                try { inner(); } catch(const Oops&) { caught = true; }
                MC_CHECK(caught, "exception at level %d", i);
                MC_CHECK((int)tt::get_depth() == i + 1, "depth %d after the exception in task %d", (int)tt::get_depth(), i);
                MC_CHECK((int)tpp::get_pending_task_count(me) == i + 2, "pending %d in task %d", (int)tpp::get_pending_task_count(me), i);
            }
            else
            {
                inner();
                MC_CHECK(i + 1 < catch_at, "exception did not pass level %d", i);
            }
        });
    tpp::invoke(me, [&] { order.push(99); MC_CHECK((int)tt::get_depth() == (drained ? catch_at : 1), "depth of a later task %d", (int)tt::get_depth()); });
    bool caught = false;
    try { tt::wait(); } catch(const Oops&) { caught = true; }
    MC_CHECK(caught == (catch_at == 0), "exception caught outside");
    MC_CHECK(tt::get_depth() == 0, "depth %d", (int)tt::get_depth());
    MC_CHECK((int)tpp::get_pending_task_count(me) == !drained, "pending %d", (int)tpp::get_pending_task_count(me));
    tt::process();
    MC_CHECK(order.size() == levels + 1 && order[levels] == 99, "remaining task");
    MC_CHECK(tpp::get_pending_task_count(me) == 0, "pending");
}

// several throwing tasks in one batch, and late senders
SCENARIO(batch, 99, 99, 0, 0)
{
    Session s;
    tid me = tt::get_id();
    mc::Log<8> order;
    int mask = mc::choose(16, "throwing"), how = mc::choose(3, "how");
    auto send = [&](int i) {
        tpp::invoke(me, [&order, i, mask] {
            order.push(i);
            if(mask & (1 << i)) throw Oops{i};
        });
    };
    send(0);
    send(1);
    Explore e;
    Raw x([&] { send(2); send(3); });
    int caught = 0;
    while(order.size() < 4)
    {
        try
        {
            if(how == 0) { tt::process(); mc::yield(); }
            if(how == 1) tt::wait();
            if(how == 2) tt::wait_for(1h);
        }
        catch(const Oops& o)
        {
            caught |= 1 << o.v;
            MC_CHECK(order[order.size() - 1] == o.v, "exception of task %d", o.v);
        }
        MC_CHECK(tt::get_depth() == 0, "depth");
    }
    for(int i = 0; i < 4; ++i) MC_CHECK(order[i] == i, "order");
    MC_CHECK(caught == mask, "exceptions %x, expected %x", caught, mask);
    x.join();
    x.t = std::thread([] {});
    MC_CHECK(tpp::get_pending_task_count(me) == 0, "pending");
}

// inline calls pass the exception on directly
SCENARIO(inline_calls, 0, 0, 0, 0)
{
    Session s;
    tid me = tt::get_id();
    Life life;
    int code = get_code([&] { Tracked t(life); tpp::dispatch(me, [t = std::move(t)] { throw Oops{4}; }); return 0; });
    MC_CHECK(code == 1004, "dispatch to the own thread: %d", code);
    MC_CHECK((int)life.live == 0 && tt::get_depth() == 0 && tpp::get_pending_task_count(me) == 0, "clean");
    // exceptions of async never leave the processing call
    auto f = tpp::async(me, std::launch::async, [] { throw Oops{6}; });
    tt::process();
    MC_CHECK(get_code([&] { f.get(); return 0; }) == 1006, "async");
    auto g = tpp::async(me, [] { throw Oops{7}; });
    MC_CHECK(get_code([&] { g.get(); return 0; }) == 1007, "async inline");
    MC_CHECK(tt::get_depth() == 0 && tpp::get_pending_task_count(me) == 0, "clean");
}

// destructors of a throwing task may use the library
SCENARIO(destructor_calls_back, 1, 2, 0, 0)
{
    struct Guard
    {
        mc::Count* c;
        tid me;
        ~Guard() { c->add((int)tpp::get_pending_task_count(me) >= 0); tpp::invoke(me, [c = c] { c->add(10); }); }
    };
    int how = mc::choose(4, "how");
    Session s;
    tid me = tt::get_id();
    mc::Count c;
    Explore e;
    {
        auto g = std::make_shared<Guard>(Guard{&c, me});
        c.add(-(int)c);
        tt::process();
        c.add(-(int)c);
        tpp::invoke(me, [g] { throw Oops{1}; });
    }
    bool caught = false;
    try
    {
        if(how == 0) tt::process();
        if(how == 1) tt::wait();
        if(how == 2) tt::process_for(1h);
        if(how == 3) tpp::promise<int>().get_future(), tt::wait_for(1h);
    }
    catch(const Oops&)
    {
        caught = true;
    }
    MC_CHECK(caught, "caught");
    tt::process();
    MC_CHECK((int)c == 11, "destructor ran once and its task as well (%d)", (int)c);
}

// a thread of its own loop, told to exit after an exception, can be joined; sends race with it
SCENARIO(own_loop, 99, 99, 0, 0)
{
    Session s;
    mc::Count runs, caught;
    Life life;
    tid id;
    {
        tpp::thread t([&] {
            tt::register_this_thread();
            while(!tt::notified_for_exit())
            {
                try { tt::wait(); } catch(const Oops&) { caught.add(); }
                MC_CHECK(tt::get_depth() == 0, "depth");
            }
            tt::unregister_this_thread();
        });
        id = t.get_id();
        mc::settle();
        Explore e;
        {
            Raw x([&] { Tracked k(life); tpp::invoke(id, [&, k = std::move(k)] { runs.add(); throw Oops{1}; }); });
            tpp::invoke(id, [&] { runs.add(); });
            tpp::invoke(id, [&] { runs.add(); throw Oops{2}; });
        }
        mc::settle();
        MC_CHECK((int)runs == 3 && (int)caught == 2, "tasks run %d, exceptions %d", (int)runs, (int)caught);
        MC_CHECK(tpp::get_pending_task_count(id) == 0, "pending");
    }
    MC_CHECK((int)life.live == 0, "destroyed");
}
