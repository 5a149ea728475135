#include "pool_common.h"
// C26: no data races or memory errors under concurrent use; published data is visible.
// The engine reports every conflicting unsynchronised access and every access to freed memory;
// the scenarios combine the operations and publish plain data along every delivery.

namespace
{
struct World
{
    Session s;
    tpp::thread t, a[3], x;
    tid id = 0, xid = 0;
    std::unique_ptr<tpp::thread_pool> pool;
    tpp::promise<int> p;
    tpp::shared_future<int> sf;
    std::unique_ptr<tpp::promise<std::string>> pe = std::make_unique<tpp::promise<std::string>>();
    tpp::shared_future<std::string> se = pe->get_future().share();
    std::mutex m;
    tpp::condition_variable cv;
    bool flag = false;   // under m
    int plain = 0;       // under mx
    tpp::mutex mx;
    mc::Count ran, done;

    explicit World(int n, int workers = 1)
    {
        t = tpp::make_thread("T");
        id = t.get_id();
        x = tpp::make_thread("X");
        xid = x.get_id();
        for(int i = 0; i < n; ++i) a[i] = tpp::make_thread("A");
        pool = std::make_unique<tpp::thread_pool>(levels{{level::normal, (size_t)workers}});
        sf = p.get_future().share();
        mc::settle();
    }
    enum { n_ops = 32 };
    // a job may be stopped by somebody else
    void op(int k)
    {
        try
        {
            op_(k);
        }
        catch(const std::future_error& e)
        {
            MC_CHECK(e.code() == std::future_errc::broken_promise, "unexpected error");
        }
        done.add();
    }
    void op_(int k)
    {
        switch(k)
        {
            case 0: { auto d = std::make_unique<int>(5); tpp::invoke(id, [this, d = std::move(d)] { ran.add(*d); }); break; }
            case 1: MC_CHECK(tpp::async(id, [](const std::string& s) { return s.size(); }, std::string("some longer text for the heap")).get() == 29, "async"); break;
            case 2: MC_CHECK(tpp::async([] { return std::string("x"); }).get() == "x", "async fresh"); break;
            case 3: MC_CHECK(tpp::shared_future<int>(sf).get() == 3, "shared get"); break;
            case 4: { auto c = sf; c.then(id, [this](tpp::shared_future<int> f) { ran.add(f.get()); }); break; }
            case 5: try { p.set_value(3); } catch(const std::future_error&) {} break;
            case 6: { std::lock_guard<std::mutex> l(m); flag = true; } cv.notify_all(); break;
            case 7: { std::unique_lock<std::mutex> l(m); while(!flag) cv.wait(l); break; }
            case 8: { std::lock_guard<tpp::mutex> l(mx); ++plain; break; }
            case 9: MC_CHECK(pool->schedule([] { return 4; }).get() == 4, "schedule"); break;
            case 10: { auto j = pool->schedule([this] { ran.add(); }); j.change_priority(tpp::priority::high(1)); j.stop(); j.wait(); break; }
            case 11: pool->stop_all(); break;
            case 12: pool->schedule([this] { ran.add(); }); pool->wait_all(); break;
            case 13: { auto j = pool->schedule([this] { ran.add(); }); pool->get_jobs_count(); pool->wait(j.id); break; }
            case 14: tpp::get_all_registered_threads(); tpp::get_pending_task_count_detailed(id); tpp::get_pending_task_count(tt::get_id()); tpp::main_thread::get_id(); break;
            case 15: { auto y = tpp::make_thread("Y"); tpp::invoke(y.get_id(), [this] { ran.add(); }); tpp::get_pending_task_count_detailed(y.get_id()); break; }
            case 16: tpp::notify_for_exit(xid); tpp::invoke(xid, [this] { ran.add(); }); break;
            case 17: { auto r = tpp::when_any(tpp::shared_future<int>(sf), tpp::async(id, [] { return 1; })).get(); MC_CHECK(r.index < 2, "index"); break; }
            case 18: { auto r = tpp::when_all(tpp::async(id, [] { return 1; }), pool->schedule([] { return 2; })).get(); MC_CHECK(std::get<0>(r).get() == 1, "when_all"); break; }
            case 19: tt::process(); tt::wait_for(1us); break;
            case 20: tpp::set_thread_config(id, {1, 0}); break;
            case 21: tpp::init(); MC_CHECK(tpp::shutdown() == -1, "inner shutdown"); break;
            case 22: { std::thread r([this] { tt::register_this_thread("R"); tpp::invoke(id, [this] { ran.add(); }); tt::process(); tt::unregister_this_thread(); }); r.join(); break; }
            case 23: tpp::notify(id); tpp::notify(xid); tpp::notify(tpp::main_thread::get_id()); break;
            case 24: { auto c = se; if(c.valid() && c.has_error()) MC_CHECK(c.is_ready(), "error but not ready"); if(c.is_ready() && !c.has_error()) MC_CHECK(c.get().size() == 40, "value"); break; }
            case 25: try { pe->set_exception(std::make_exception_ptr(std::future_error(std::future_errc::broken_promise))); } catch(const std::future_error&) {} break;
            case 26: try { pe->set_value(std::string(40, 'x')); } catch(const std::future_error&) {} break;
            case 27: { auto c = se; auto r = c.wait_for(1us); if(r == std::future_status::ready && !c.has_error()) MC_CHECK(c.get() == std::string(40, 'x'), "value"); break; }
            case 29: { std::unique_lock<std::mutex> l(m); if(!flag) cv.wait_for(l, 1us); break; }
            case 30: if(mx.try_lock()) { ++plain; mx.unlock(); } break;
            case 31: tt::sleep_for(1us); tpp::notify_for_exit(9999); cv.notify_one(); break;
            case 28:
            {
                std::vector<tpp::shared_future<int>> v{sf, sf};
                tpp::promise<int> q;
                v.push_back(q.get_future().share());
                auto all = tpp::when_all(v.begin(), v.end());
                auto any = tpp::when_any(v.begin(), v.end());
                q.set_value(1);
                any.get();
                all.get();
                break;
            }
        }
    }
    void join()
    {
        for(auto* h : {&a[0], &a[1], &a[2], &t, &x})
            if(h->joinable()) h->join();
    }
    void finish(int n)
    {
        mc::settle();
        // release what waits for an event nobody caused
        try { p.set_value(3); } catch(const std::future_error&) {}
        { std::lock_guard<std::mutex> l(m); flag = true; }
        cv.notify_all();
        mc::settle();
        if((int)done < n) std::this_thread::sleep_for(1ms); // timed calls end
        mc::settle();
        MC_CHECK((int)done == n, "%d of %d operations returned", (int)done, n);
        MC_CHECK(pool->get_jobs_count() == 0, "jobs left");
        pool.reset();
        join();
    }
};
} // namespace

// every pair of operations concurrently; the scenarios share the work
static void pairs(int part)
{
    int k = mc::choose(World::n_ops, "first"), l = mc::choose(World::n_ops, "second");
    if(l < k || (k + l) % 8 != part) return;
    World w(2);
    {
        Explore e;
        tpp::invoke(w.a[0].get_id(), [&] { w.op(k); });
        tpp::invoke(w.a[1].get_id(), [&] { w.op(l); });
        mc::settle();
    }
    w.finish(2);
}
SCENARIO(pairs0, 1, 2, 0, 0) { pairs(0); }
SCENARIO(pairs1, 1, 2, 0, 0) { pairs(1); }
SCENARIO(pairs2, 1, 2, 0, 0) { pairs(2); }
SCENARIO(pairs3, 1, 2, 0, 0) { pairs(3); }
SCENARIO(pairs4, 1, 2, 0, 0) { pairs(4); }
SCENARIO(pairs5, 1, 2, 0, 0) { pairs(5); }
SCENARIO(pairs6, 1, 2, 0, 0) { pairs(6); }
SCENARIO(pairs7, 1, 2, 0, 0) { pairs(7); }
// timed operations expiring at any moment of every other operation
static void expiring(int part)
{
    static const int timed[] = {19, 27, 29, 31};
    int k = mc::choose(4, "timed"), l = mc::choose(World::n_ops, "other");
    if((k + l) % 2 != part) return;
    World w(2);
    {
        Explore e;
        tpp::invoke(w.a[0].get_id(), [&] { w.op(timed[k]); });
        tpp::invoke(w.a[1].get_id(), [&] { w.op(l); });
        mc::settle();
    }
    w.finish(2);
}
SCENARIO(expiring0, 1, 2, 1, 0) { expiring(0); }
SCENARIO(expiring1, 1, 2, 1, 0) { expiring(1); }
// every triple of the operations that change shared structures
static void triples(int part)
{
    static const int core[] = {0, 3, 5, 7, 8, 10, 11, 15, 16, 17};
    int k = mc::choose(10, "first"), l = mc::choose(10, "second"), m = mc::choose(10, "third");
    if(l < k || m < l || (k + l + m) % 4 != part) return;
    World w(3);
    {
        Explore e;
        tpp::invoke(w.a[0].get_id(), [&] { w.op(core[k]); });
        tpp::invoke(w.a[1].get_id(), [&] { w.op(core[l]); });
        tpp::invoke(w.a[2].get_id(), [&] { w.op(core[m]); });
        mc::settle();
    }
    w.finish(3);
}
SCENARIO(triples0, 0, 1, 0, 0) { triples(0); }
SCENARIO(triples1, 0, 1, 0, 0) { triples(1); }
SCENARIO(triples2, 0, 1, 0, 0) { triples(2); }
SCENARIO(triples3, 0, 1, 0, 0) { triples(3); }
// one operation while its thread, or the thread it talks to, is being joined
SCENARIO(against_exit, 2, 3, 0, 0)
{
    int k = mc::choose(World::n_ops, "operation"), which = mc::choose(2, "joined thread");
    // get() throws when the thread is told to exit or the target is gone: outcome checked elsewhere
    World w(1);
    {
        Explore e;
        tpp::invoke(w.a[0].get_id(), [&] { w.op(k); });
        if(which && (k == 3 || k == 7)) { w.p.set_value(3); std::lock_guard<std::mutex> l(w.m); w.flag = true; w.cv.notify_all(); }
        if(which == 0) w.t.join();
        else w.a[0].join();
        mc::settle();
    }
    if(which == 0)
    {
        try { w.p.set_value(3); } catch(const std::future_error&) {}
        { std::lock_guard<std::mutex> l(w.m); w.flag = true; }
        w.cv.notify_all();
        mc::settle();
    }
    w.join();
    w.pool.reset();
}

// the same for pools
SCENARIO(published_by_pool, 3, 4, 0, 0)
{
    int way = mc::choose(5, "way");
    Session s;
    int data = 0; // plain
    {
        tpp::thread_pool pool(levels{{level::normal, 2}});
        mc::settle();
        Explore e;
        if(way == 0) { data = 42; pool.schedule([&] { MC_CHECK(data == 42, "not visible to the job"); }).get(); }
        if(way == 1) { pool.schedule([&] { data = 42; }).get(); MC_CHECK(data == 42, "not visible after get"); }
        if(way == 2) { auto j = pool.schedule([&] { data = 42; }); pool.wait(j.id); MC_CHECK(data == 42, "not visible after wait"); }
        if(way == 3) { pool.schedule([&] { data = 42; }); pool.wait_all(); MC_CHECK(data == 42, "not visible after wait_all"); }
        if(way == 4) // job to job, whoever runs it
        {
            auto j = pool.schedule([&] { data = 42; pool.schedule([&] { MC_CHECK(data == 42, "not visible to the next job"); data = 43; }); });
            j.get();
            pool.wait_all();
        }
    }
    MC_CHECK(data >= 42, "job did not run");
}

// plain data written before a delivery is visible after it
static void published(int way)
{
    Session s;
    int data = 0; // plain
    mc::Count seen;
    {
        tpp::promise<int> p;
        auto sf = p.get_future().share();
        tpp::promise<void> pv;
        auto fv = pv.get_future();
        tpp::mutex mx;
        std::mutex m;
        tpp::condition_variable cv;
        mc::Var<bool> go{false};
        auto t = tpp::make_thread("T");
        auto u = tpp::make_thread("U");
        tid ti = t.get_id(), ui = u.get_id(), me = tt::get_id();
        mc::settle();
        auto check = [&] { MC_CHECK(data == 42, "published data not visible"); seen.add(); };
        Explore e;
        switch(way)
        {
            case 0: data = 42; tpp::invoke(ti, check); break;
            case 1: // through two hops
                data = 42;
                tpp::invoke(ti, [&] { tpp::invoke(ui, check); });
                break;
            case 2: tpp::invoke(ti, [&, sf] { sf.wait(); check(); }); data = 42; p.set_value(1); break;
            case 3: tpp::invoke(ti, [&, sf] { while(!sf.is_ready()) std::this_thread::yield(); check(); }); data = 42; p.set_value(1); break;
            case 4: sf.then(ti, [&](tpp::shared_future<int>) { check(); }); data = 42; p.set_value(1); break;
            case 5: // the attaching thread finds the future ready
                tpp::invoke(ti, [&] { data = 42; p.set_value(1); });
                tpp::invoke(ui, [&, sf] { sf.then(ui, [&](tpp::shared_future<int>) { check(); }); });
                break;
            case 6: tpp::invoke(ti, [&] { fv.get(); check(); }); data = 42; pv.set_value(); break;
            case 7: // mutex
                tpp::invoke(ti, [&] { mx.lock(); data = 42; mx.unlock(); });
                tpp::invoke(ui, [&] { for(;;) { mx.lock(); bool ok = data == 42; mx.unlock(); if(ok) break; std::this_thread::yield(); } seen.add(); });
                break;
            case 8: // try_lock
                tpp::invoke(ti, [&] { mx.lock(); data = 42; mx.unlock(); });
                tpp::invoke(ui, [&] { for(;;) { bool ok = false; if(mx.try_lock()) { ok = data == 42; mx.unlock(); } if(ok) break; std::this_thread::yield(); } seen.add(); });
                break;
            case 9: // notify of a condition variable, no other synchronisation after the wait
                tpp::invoke(ti, [&] { std::unique_lock<std::mutex> l(m); go = true; cv.wait(l); l.unlock(); check(); });
                while(true) { std::lock_guard<std::mutex> l(m); if(go) break; }
                data = 42;
                cv.notify_one();
                break;
            case 10: { auto f = tpp::async(ti, [&] { data = 42; return 1; }); f.get(); check(); break; }
            case 11: { auto f = tpp::async([&] { data = 42; }); f.get(); check(); break; }
            case 12: { tpp::invoke(ti, [&] { data = 42; }); t.join(); if(data == 42 || data == 0) seen.add(); break; }
            case 13: // registration from outside to the first task
            {
                Gate ready;
                Raw r([&] { ready.pass(); tt::register_this_thread(); while(!go) { tt::wait(); } tt::unregister_this_thread(); });
                auto id = tpp::register_thread(r.t.get_id(), "R");
                data = 42;
                tpp::invoke(id, [&] { check(); go = true; });
                ready.open();
                break;
            }
            case 14: // the broken promise as well
            {
                auto q = std::make_unique<tpp::promise<int>>();
                auto f = q->get_future();
                tpp::invoke(ti, [&, f = std::move(f)]() mutable { f.wait(); check(); });
                data = 42;
                q.reset();
                break;
            }
            case 15: // combined futures: what any of the setters wrote
            {
                auto q = std::make_shared<tpp::promise<int>>();
                auto f = q->get_future();
                tpp::invoke(ti, [&, q] { data = 42; q->set_value(1); });
                tpp::invoke(ui, [&] { p.set_value(1); });
                auto all = tpp::when_all(sf, f);
                all.get();
                check();
                break;
            }
        }
        mc::settle();
    }
    MC_CHECK((int)seen == 1, "delivered");
}

static const int spinning[] = {3, 7, 8, 9}, blocking[] = {0, 1, 2, 4, 5, 6, 10, 11, 12, 13, 14, 15};
SCENARIO(published, 4, 99, 0, 0) { published(blocking[mc::choose(12, "way")]); }
SCENARIO(published_spinning, 4, 5, 0, 0) { published(spinning[mc::choose(4, "way")]); }
