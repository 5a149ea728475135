#include "pool_common.h"
// C31: what a thread that is not registered can do.

namespace
{
// the calling thread is not registered and looks like it
void stranger(const char* when)
{
    MC_CHECK(!tt::is_registered(), "%s: registered", when);
    MC_CHECK(tt::get_id() == tpp::invalid_id(), "%s: has an id", when);
    MC_CHECK(tt::get_depth() == 0, "%s: depth %d", when, (int)tt::get_depth());
    MC_CHECK(tt::notified_for_exit(), "%s: not told to exit", when);
}
// kinds of threads that are not registered
enum Who { never, was, was_twice, told_and_was, as_main, n_who };
template<typename F>
void as(int who, F f)
{
    if(who == as_main)
    {
        // the main thread after it unregistered itself; comes back for the end of the program
        tt::unregister_this_thread();
        f();
        tt::register_this_thread("Main Thread");
        return;
    }
    Raw r([&] {
        if(who == was || who == was_twice || who == told_and_was)
        {
            for(int i = 0; i <= (who == was_twice); ++i)
            {
                tt::register_this_thread("was");
                if(who == told_and_was) tpp::notify_for_exit(tt::get_id());
                tpp::invoke(tt::get_id(), [] {});
                tt::process();
                tt::unregister_this_thread();
            }
        }
        f();
    });
}
} // namespace

// no call blocks, and none takes anything away from the registered threads
SCENARIO(calls_return, 0, 0, 0, 0)
{
    Session s;
    auto other = tpp::make_thread("T");
    mc::settle();
    int who = mc::choose(n_who, "who");
    int what = mc::choose(24, "call");
    bool ready = mc::choose(2, "ready");
    size_t before = tpp::get_all_registered_threads().size();
    as(who, [&] {
        stranger("before");
        auto t0 = mc::now();
        std::mutex m;
        tpp::condition_variable cv;
        tpp::promise<int> p;
        tpp::promise<void> pv;
        auto f = p.get_future();
        auto fv = pv.get_future();
        if(ready)
        {
            p.set_value(7);
            pv.set_value();
        }
        auto far = std::chrono::steady_clock::now() + 1h;
        int code = 0;
        switch(what)
        {
            case 0: tt::process(); break;
            case 1: tt::process_for(1h); break;
            case 2: tt::wait(); break;
            case 3: MC_CHECK(tt::wait_for(1h) == std::cv_status::no_timeout, "status"); break;
            case 4: MC_CHECK(tt::wait_until(far) == std::cv_status::no_timeout, "status"); break;
            case 5: tt::sleep_for(1h); break;
            case 6: tt::sleep_until(far); break;
            case 7: f.wait(); break;
            case 8:
                MC_CHECK(f.wait_for(1h) == (ready ? std::future_status::ready : std::future_status::deferred), "status of wait_for");
                break;
            case 9:
                MC_CHECK(f.wait_until(far) == (ready ? std::future_status::ready : std::future_status::deferred), "status of wait_until");
                break;
            case 10:
                code = get_code([&] { return f.get(); });
                MC_CHECK(code == (ready ? 7 : -2), "get gave %d", code);
                MC_CHECK(!f.valid(), "future still valid");
                break;
            case 11:
                code = get_code([&] { fv.get(); return 7; });
                MC_CHECK(code == (ready ? 7 : -2), "get gave %d", code);
                break;
            case 12:
            {
                auto sf = f.share();
                code = get_code([&] { return sf.get(); });
                MC_CHECK(code == (ready ? 7 : -2), "get gave %d", code);
                MC_CHECK(sf.valid() && sf.is_ready() == ready, "shared future");
                break;
            }
            case 13:
            case 14:
            case 15:
            {
                std::unique_lock<std::mutex> l(m);
                if(what == 13) cv.wait(l);
                if(what == 14) cv.wait_for(l, 1h);
                if(what == 15) cv.wait_until(l, far);
                MC_CHECK(l.owns_lock(), "lock not held");
                l.unlock();
                MC_CHECK(m.try_lock(), "lock not free");
                m.unlock();
                // the wait left nothing behind
                cv.notify_one();
                cv.notify_all();
                break;
            }
            case 16: tt::unregister_this_thread(); break;
            case 17: MC_CHECK(tpp::get_pending_task_count(tt::get_id()) == 0, "count"); break;
            case 18: MC_CHECK(!tpp::invoke(tt::get_id(), [&] { code = 1; }), "accepted"); break;
            case 19: MC_CHECK(f.is_ready() == ready && f.valid() && !f.has_error(), "state"); break;
            case 20: tpp::notify(tt::get_id()); code = 0; break;
            case 21: tpp::notify_for_exit(tt::get_id()); break;
            case 22: MC_CHECK(tpp::get_all_registered_threads().size() == before - (who == as_main), "registered threads"); break;
            case 23: MC_CHECK(listed(tpp::main_thread::get_id()) == (who != as_main), "main thread"); break;
        }
        if(what == 18) MC_CHECK(code == 0, "task run");
        MC_CHECK(mc::now() - t0 < 1000000, "the call took %d ms", (int)((mc::now() - t0) / 1000000));
        stranger("after");
    });
    MC_CHECK(tpp::get_all_registered_threads().size() == before, "number of registered threads changed");
    Probe p;
    tid id = other.get_id();
    MC_CHECK(tpp::invoke(id, [&] { p.hit(); }), "refused");
    mc::settle();
    p.expect("task", 1, id);
}

// waiting on something does not disturb the registered waiters
SCENARIO(beside_registered, 99, 99, 0, 0)
{
    Session s;
    int k = mc::choose(2, "kind");
    tid me = tt::get_id();
    if(k == 0)
    {
        std::mutex m;
        tpp::condition_variable cv;
        bool flag = false;
        Explore e;
        Raw r([&] {
            std::unique_lock<std::mutex> l(m);
            cv.wait(l);
            MC_CHECK(l.owns_lock(), "lock not held");
            cv.wait_for(l, 1h);
            MC_CHECK(l.owns_lock(), "lock not held");
            flag = true;
            l.unlock();
            cv.notify_one();
        });
        std::unique_lock<std::mutex> l(m);
        while(!flag) cv.wait(l);
    }
    else
    {
        tpp::promise<int> p;
        auto f = p.get_future().share();
        mc::Var<int> code{0};
        Explore e;
        {
            Raw r([&, f] {
                f.wait();
                int c = get_code([&] { return f.get(); });
                MC_CHECK(c == 7 || c == -2, "get gave %d", c);
                code = c;
                p.set_value(7);
            });
            int c = get_code([&] { return f.get(); });
            MC_CHECK(c == 7, "get gave %d", c);
        }
        MC_CHECK(code == -2, "get before the value was set gave %d", (int)code);
    }
    MC_CHECK(tt::get_id() == me, "id");
}

// a wait of such a thread takes no notification away from a registered waiter
SCENARIO(takes_no_notification, 3, 4, 0, 0)
{
    int who = mc::choose(4, "who"), kind = mc::choose(3, "kind"), strangers = 1 + mc::choose(2, "strangers");
    Session s;
    tpp::condition_variable cv;
    std::mutex m;
    mc::Var<int> state{0};
    {
        Raw w([&] {
            tt::register_this_thread();
            {
                std::unique_lock<std::mutex> l(m);
                state = 1;
                cv.wait(l);
                state = 2;
            }
            tt::unregister_this_thread();
        });
        {
            Explore e;
            std::vector<std::unique_ptr<Raw>> v;
            for(int i = 0; i < strangers; ++i) v.push_back(std::make_unique<Raw>([&] {
                if(who > 0)
                {
                    tt::register_this_thread();
                    if(who == 2) tpp::notify_for_exit(tt::get_id());
                    if(who == 3) tpp::invoke(tt::get_id(), [] {});
                    tt::unregister_this_thread();
                }
                std::unique_lock<std::mutex> l(m);
                if(kind == 0) cv.wait(l);
                else if(kind == 1) cv.wait_for(l, 1h);
                else cv.wait_until(l, std::chrono::steady_clock::now() + 1h);
                MC_CHECK(l.owns_lock(), "lock not held");
            }));
            v.clear();
            mc::settle();
        }
        MC_CHECK(state == 1, "waiter released without a notification");
        cv.notify_one();
        mc::settle();
        MC_CHECK(state == 2, "registered waiter not released: the notification was lost to a thread that is not registered");
    }
}

// everything that sends works
SCENARIO(sends, 99, 99, 0, 0)
{
    Session s;
    int what = mc::choose(13, "what");
    auto t = tpp::make_thread("T");
    tid id = t.get_id();
    mc::settle();
    Probe p;
    mc::Var<int> got{0};
    std::unique_ptr<tpp::thread_pool> pool;
    if(what == 11 || what == 12) pool = std::make_unique<tpp::thread_pool>(levels{{level::normal, 1}});
    Blocking b(what == 8 ? Blocking::wait : what == 9 ? Blocking::cv_wait : Blocking::fut_get);
    if(what >= 8 && what <= 10)
    {
        tpp::invoke(id, [&] { b.enter(); p.hit(); });
        mc::settle();
    }
    {
        Explore e;
        Raw r([&] {
            tpp::future<int> f;
            auto one = [&p] { p.hit(); return 1; };
            switch(what)
            {
                case 0: MC_CHECK(tpp::invoke(id, one), "refused"); break;
                case 1: MC_CHECK(tpp::dispatch(id, one), "refused"); break;
                case 2: f = tpp::async(id, one); break;
                case 3: f = tpp::async(id, std::launch::async, one); break;
                case 4: f = tpp::async(id, std::launch::deferred, one); break;
                case 5: f = tpp::make_ready_future().then(id, [one](tpp::future<void>) { return one(); }); break;
                case 6: MC_CHECK(tpp::set_thread_config(id, {}), "refused"); tpp::invoke(id, one); break;
                case 7:
                {
                    tpp::promise<void> pr;
                    f = pr.get_future().then(id, [one](tpp::future<void>) { return one(); });
                    pr.set_value();
                    break;
                }
                case 8:
                case 9:
                case 10: b.release(id); break;
                case 11: f = pool->schedule(one); break;
                case 12:
                {
                    auto j = pool->schedule(one);
                    pool->wait(j.id);
                    pool->wait_all();
                    f = std::move(j);
                    break;
                }
            }
            stranger("after sending");
        });
    }
    mc::settle();
    p.expect("task", 1, what >= 11 ? p.where.get() : id);
    if(what >= 11) MC_CHECK(p.where != 0, "job ran on an unregistered thread");
    t.join();
    pool.reset();
}

// results travel through continuations and combinations set up by an unregistered thread
SCENARIO(combines, 99, 99, 0, 0)
{
    Session s;
    auto t = tpp::make_thread("T");
    tid id = t.get_id(), me = tt::get_id();
    mc::settle();
    int what = mc::choose(3, "what");
    tpp::future<int> out;
    mc::Var<int> state{0};
    {
        Explore e;
        Raw r([&] {
            auto f = tpp::async(id, [] { return 5; });
            if(what == 0) out = f.then(me, [&](tpp::future<int> x) { return x.get() + 1; });
            if(what == 1) out = f.then(id, [&](tpp::future<int> x) { return x.get() + 1; }).then(me, [](tpp::future<int> x) { return x.get(); });
            if(what == 2) out = f.share().then(me, std::launch::async, [&](tpp::shared_future<int> x) { return x.get() + 1; });
        });
        r.join();
        int c = get_code([&] { return out.get(); });
        MC_CHECK(c == 6, "result %d", c);
    }
}

// when a thread registers it is a full participant at once, and none any more after unregistering
SCENARIO(comes_and_goes, 99, 99, 0, 0)
{
    Session s;
    mc::Var<tid> id{0};
    Probe p;
    mc::Var<int> ok{-1}, up{0}, down{0};
    {
        Explore e;
        Raw r([&] {
            stranger("first");
            tt::register_this_thread("X");
            MC_CHECK(tt::is_registered() && !tt::notified_for_exit() && tt::get_id() != tpp::invalid_id(), "registered");
            MC_CHECK(listed(tt::get_id()), "not listed");
            id = tt::get_id();
            up = 1;
            tt::wait_for(1ms);
            tt::process();
            MC_CHECK(tt::get_depth() == 0, "depth");
            tt::unregister_this_thread();
            down = 1;
            stranger("after");
            MC_CHECK(!listed(id), "still listed");
        });
        tid x = id;
        bool was_down = down;
        ok = tpp::invoke(x ? x : 12345, [&] { p.hit(); });
        if(!x || was_down) MC_CHECK(ok == 0, "task for a thread that is not registered accepted");
    }
    MC_CHECK((int)p.runs <= (int)ok, "task ran %d times, accepted %d", (int)p.runs, (int)ok);
    if((int)p.runs) MC_CHECK(p.where == id, "task ran elsewhere");
    mc_observe("%d%d", (int)ok, (int)p.runs);
}
