#include "common.h"
// C13: an abandoned result always surfaces as broken_promise.

namespace
{
// how the result is looked at
struct Look
{
    int how; // 0 get, 1 wait then get, 2 continuation, 3 shared with two holders
    mc::Var<int> code{0}, code2{0};
    tpp::shared_future<int> sf;
    tpp::future<int> f;
    tpp::future<void> c;
    Look(int h, tpp::future<int> x) : how(h)
    {
        if(how == 2)
            c = x.then(tt::get_id(), [this](tpp::future<int> g) {
                MC_CHECK(g.valid() && g.is_ready() && g.has_error(), "continuation of a broken future: not ready with error");
                code = get_code([&] { return g.get(); });
            });
        else if(how == 3) sf = x.share();
        else f = std::move(x);
    }
    void finish(const char* what)
    {
        auto t0 = mc::now();
        if(how == 0) code = get_code([&] { return f.get(); });
        if(how == 1)
        {
            f.wait();
            MC_CHECK(f.is_ready() && f.has_error(), "%s: waiter returned, but the future is not ready with error", what);
            code = get_code([&] { return f.get(); });
        }
        if(how == 2) { c.wait(); MC_CHECK(get_code([&] { c.get(); return 1; }) == 1, "continuation's own future"); }
        if(how == 3)
        {
            auto g = sf;
            code2 = get_code([&] { return g.get(); });
            code = get_code([&] { return sf.get(); });
            MC_CHECK(code2 == code, "holders differ");
        }
        MC_CHECK(code == -2, "%s: outcome %d instead of broken_promise", what, code.get());
        MC_CHECK(mc::now() - t0 < 1000000, "%s: time passed", what);
    }
};
} // namespace

// promise destroyed / overwritten / moved from, while the main thread waits
SCENARIO(promise_gone, 99, 99, 0, 0)
{
    int way = mc::choose(6, "way"), how = mc::choose(4, "look"), unwinding = mc::choose(2, "unwinding");
    Session s;
    auto p = std::make_unique<tpp::promise<int>>();
    Look l(how, p->get_future());
    {
        Explore e;
        Raw r([&] { maybe_unwinding(unwinding, [&] {
            switch(way)
            {
                case 0: p.reset(); break;
                case 1: *p = tpp::promise<int>(); break;
                case 2: { tpp::promise<int> q; *p = std::move(q); break; }
                case 3: { tpp::promise<int> q(std::move(*p)); break; }
                case 4: p->abandon(); break;
                case 5: { tpp::promise<int> q, z; q = std::move(*p); q = std::move(z); break; }
            }
        }); });
        l.finish("promise gone");
    }
    p.reset();
}
SCENARIO(promise_gone_void, 99, 99, 0, 0)
{
    int way = mc::choose(3, "way"), unwinding = mc::choose(2, "unwinding");
    Session s;
    auto p = std::make_unique<tpp::promise<void>>();
    auto f = p->get_future();
    int c;
    {
        Explore e;
        Raw r([&] { maybe_unwinding(unwinding, [&] {
            if(way == 0) p.reset();
            else if(way == 1) *p = tpp::promise<void>();
            else p->abandon();
        }); });
        c = get_code([&] { f.get(); return 1; });
    }
    MC_CHECK(c == -2, "outcome %d", c);
}

// tasks that never run
SCENARIO(task_dropped, 99, 99, 0, 0)
{
    int way = mc::choose(5, "way"), how = mc::choose(4, "look"), unwinding = mc::choose(2, "unwinding");
    Session s;
    mc::Count ran;
    tid dead;
    {
        auto t = tpp::make_thread("dead");
        dead = t.get_id();
    }
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    Gate g, started;
    mc::settle();
    tpp::future<int> f;
    auto fn = [&] { ran.add(); return 1; };
    maybe_unwinding(unwinding, [&] { switch(way)
    {
        case 0: f = tpp::async(dead, fn); break;
        case 1: f = tpp::async(dead, std::launch::async, fn); break;
        case 2: // queued behind a running task, thread exits
        case 3:
            tpp::invoke(id, [&] { started.open(); g.pass(); });
            started.pass();
            f = tpp::async(id, fn);
            break;
        case 4: // promise captured by a task that is refused
        {
            tpp::promise<int> p;
            f = p.get_future();
            tpp::invoke(dead, [q = tpp::capture(std::move(p))]() mutable { std::get<0>(q.get()).set_value(1); });
            break;
        }
    } });
    {
        Look l(how, std::move(f));
        Explore e;
        {
            std::unique_ptr<Raw> r;
            if(way == 2) r = std::make_unique<Raw>([&] { tpp::notify_for_exit(id); g.open(); });
            if(way == 3) r = std::make_unique<Raw>([&] { tpp::notify_for_exit(id); g.open(); maybe_unwinding(unwinding, [&] { t.join(); }); });
            l.finish("dropped task");
        }
    }
    MC_CHECK((int)ran == 0, "dropped task ran");
}

// either the task ran before the exit and delivers, or it is broken; nobody hangs
SCENARIO(async_against_exit, 99, 99, 0, 0)
{
    Session s;
    mc::Count ran;
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    mc::settle();
    int c;
    {
        Explore e;
        Raw r([&] { t.join(); });
        auto f = tpp::async(id, [&] { ran.add(); return 7; });
        c = get_code([&] { return f.get(); });
    }
    MC_CHECK((int)ran == 1 ? c == 7 : c == -2, "ran %d, outcome %d", (int)ran, c);
    mc_observe("%d", c);
}

// continuation target gone before or after attaching
SCENARIO(continuation_target_gone, 99, 99, 0, 0)
{
    bool before = mc::choose(2, "gone before attach"), shared = mc::choose(2, "shared"), chain = mc::choose(2, "chain");
    Session s;
    auto t = std::make_unique<tpp::thread>(tpp::make_thread("T"));
    auto id = t->get_id();
    mc::settle();
    mc::Count ran;
    tpp::promise<int> p;
    if(before) t.reset();
    tpp::future<int> f;
    auto body = [&](auto) { ran.add(); return 1; };
    if(shared) f = p.get_future().share().then(id, body);
    else f = p.get_future().then(id, body);
    if(chain) f = f.then(tt::get_id(), [](tpp::future<int> x) { return x.get() + 1; });
    t.reset();
    {
        Explore e;
        Raw r([&] { p.set_value(3); });
        int c = get_code([&] { return f.get(); });
        MC_CHECK(c == -2, "outcome %d", c);
    }
    MC_CHECK((int)ran == 0, "ran without a target");
}

// pool jobs
SCENARIO(pool_jobs, 3, 4, 0, 0)
{
    int way = mc::choose(4, "way"), how = mc::choose(4, "look"), unwinding = mc::choose(2, "unwinding");
    Session s;
    mc::Count ran;
    Gate g, started;
    auto pool = std::make_unique<tpp::thread_pool>(std::map<tpp::priority::category, size_t>{{tpp::priority::category::normal, 1}});
    auto first = pool->schedule([&] { started.open(); g.pass(); });
    started.pass();
    auto f = pool->schedule([&] { ran.add(); return 1; });
    auto jid = f.id;
    auto storage = static_cast<tpp::job_future_storage&>(f);
    {
        Look l(how, std::move(f));
        Explore e;
        {
            Raw r([&] { maybe_unwinding(unwinding, [&] {
                if(way == 0) pool->stop(jid);
                if(way == 1) pool->stop_all();
                if(way == 2) storage.stop();
                if(way == 3) { Raw q([&] { g.open(); }); pool.reset(); }
            }); });
            if(way == 3)
            {
                // either stopped or run, see C24; here: never silent
                int c = 0;
                if(how == 0)
                {
                    c = get_code([&] { return l.f.get(); });
                    MC_CHECK(c == ((int)ran ? 1 : -2), "outcome %d", c);
                }
                else if(how == 1) { l.f.wait(); MC_CHECK(l.f.is_ready(), "ready"); }
                else if(how == 3) { l.sf.wait(); MC_CHECK(l.sf.is_ready(), "ready"); }
                else return mc::explore(false), g.open(), (void)0;
            }
            else l.finish("stopped job");
        }
        g.open();
    }
    pool.reset();
}

// a delivered result stays delivered when the producer goes away
SCENARIO(delivered_stays, 99, 99, 0, 0)
{
    int way = mc::choose(5, "way");
    bool err = mc::choose(2, "error");
    Session s;
    auto p = std::make_unique<tpp::promise<int>>();
    auto sf = p->get_future().share();
    {
        Explore e;
        Raw r([&] {
            if(err) p->set_exception(std::make_exception_ptr(Oops{1}));
            else p->set_value(1);
            switch(way)
            {
                case 0: p.reset(); break;
                case 1: *p = tpp::promise<int>(); break;
                case 2: { tpp::promise<int> q(std::move(*p)); break; }
                case 3: { int c = get_code([&] { p->abandon(); return 0; }); MC_CHECK(c == -5, "abandon after delivery gave %d", c); break; }
                case 4: { auto q = std::move(p); break; }
            }
        });
        int c = get_code([&] { return sf.get(); });
        MC_CHECK(c == (err ? 1001 : 1), "delivered result became %d", c);
    }
    int c = get_code([&] { return sf.get(); });
    MC_CHECK(c == (err ? 1001 : 1), "delivered result became %d later", c);
}

// two waiting threads and a continuation at once
SCENARIO(all_proceed, 4, 5, 0, 0)
{
    Session s;
    auto p = std::make_unique<tpp::promise<int>>();
    auto sf = p->get_future().share();
    mc::Var<int> a{0}, b{0}, c{0};
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    mc::settle();
    auto cont = sf.then(id, [&](tpp::shared_future<int> x) { b = get_code([&] { return x.get(); }); });
    tpp::invoke(id, [&] { a = get_code([&] { auto x = sf; return x.get(); }); });
    {
        Explore e;
        Raw r([&] { p.reset(); });
        c = get_code([&] { return sf.get(); });
        cont.wait();
    }
    mc::settle();
    MC_CHECK(a == -2 && b == -2 && c == -2, "outcomes %d %d %d", a.get(), b.get(), c.get());
}
