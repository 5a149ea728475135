#include "common.h"
// C02: tasks start in the order in which they were accepted.

static void ordered(const mc::Log<16>& l, std::initializer_list<int> seq)
{
    int prev = -1;
    for(int x : seq)
    {
        int i = l.index_of(x);
        MC_CHECK(i >= 0 && l.count(x) == 1, "task %d started %d times", x, l.count(x));
        MC_CHECK(i > prev, "task %d started before a task that was accepted earlier", x);
        prev = i;
    }
}

SCENARIO(two_senders, 5, 99, 0, 0)
{
    Session s;
    mc::Log<16> log;
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    mc::settle();
    {
        Explore e;
        {
            Raw r([&] {
                tpp::invoke(id, [&] { log.push(1); });
                tpp::invoke(id, [&] { log.push(2); });
            });
            tpp::invoke(id, [&] { log.push(11); });
            tpp::dispatch(id, [&] { log.push(12); });
            tpp::invoke(id, [&] { log.push(13); });
        }
        mc::settle();
    }
    ordered(log, {1, 2});
    ordered(log, {11, 12, 13});
    MC_CHECK(log.size() == 5, "all tasks started");
}

// the second sender starts when the first send has returned
SCENARIO(causal_senders, 99, 99, 0, 0)
{
    Session s;
    mc::Log<16> log;
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    mc::settle();
    {
        Explore e;
        Gate g;
        {
            Raw r([&] {
                g.pass();
                tpp::invoke(id, [&] { log.push(2); });
                tpp::invoke(id, [&] { log.push(3); });
            });
            tpp::invoke(id, [&] { log.push(1); });
            g.open();
        }
        tpp::invoke(id, [&] { log.push(4); });
        mc::settle();
    }
    ordered(log, {1, 2, 3, 4});
}

// causality through a task on another thread and through the receiver itself
SCENARIO(causal_through_tasks, 6, 7, 0, 0)
{
    Session s;
    mc::Log<16> log;
    auto t = tpp::make_thread("T");
    auto u = tpp::make_thread("U");
    auto id = t.get_id();
    mc::settle();
    {
        Explore e;
        tpp::invoke(id, [&] { log.push(1); tpp::invoke(id, [&] { log.push(11); }); tpp::invoke(id, [&] { log.push(12); }); });
        tpp::invoke(u.get_id(), [&] {
            tpp::invoke(id, [&] { log.push(2); });
            tpp::invoke(id, [&] { log.push(3); });
        });
        mc::settle();
    }
    ordered(log, {1, 2, 3});
    ordered(log, {1, 11, 12});
}

// all behaviours of the tasks: the receiver is the main thread, tasks may send, process and block
namespace
{
struct Program
{
    mc::Log<16> log;
    int next = 0, running = 0;
    tid me = tt::get_id();
    void send(int b)
    {
        int n = next++;
        MC_CHECK(tpp::invoke(me, [this, n, b] { run(n, b); }), "send accepted");
    }
    void run(int n, int b)
    {
        log.push(n);
        switch(b)
        {
            case 0: break;
            case 1: send(0); break;
            case 2: tt::process(); break;
            case 3: send(0); tt::process(); break;
            case 4: tt::wait_for(2us); break;
            case 5: send(2); send(0); tt::wait_for(2us); break;
            case 6: tt::process_for(2us); send(0); break;
        }
    }
};
} // namespace
SCENARIO(nested_programs, 0, 0, 0, 0)
{
    tpp::init_data d;
    const size_t cap[] = {16, 0};
    d.tasks_capacity.default_reserved_tasks = cap[mc::choose(2, "capacity")];
    d.tasks_capacity.capacity_shrink_threashold = d.tasks_capacity.default_reserved_tasks;
    Session s(d);
    Program p;
    int n = mc_thorough() ? 5 : 4;
    for(int i = 0; i < n; ++i) p.send(mc::choose(7, "behaviour"));
    int how = mc::choose(4, "serve");
    while(p.log.size() < p.next)
    {
        int before = p.log.size();
        if(how == 0) tt::process();
        else if(how == 1) tt::wait();
        else if(how == 2) tt::wait_for(1ms);
        else tt::process_for(1s);
        MC_CHECK(p.log.size() > before, "a serving call with tasks queued served nothing");
    }
    for(int i = 0; i < p.log.size(); ++i) MC_CHECK(p.log[i] == i, "task %d was started as number %d", p.log[i], i);
}

// a task blocks on a future or condition variable; later tasks are served inside it
SCENARIO(blocked_receiver, 4, 5, 0, 0)
{
    Session s;
    mc::Log<16> log;
    Blocking b(mc::choose(2, "kind") ? Blocking::fut_get : Blocking::cv_wait);
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    mc::settle();
    {
        Explore e;
        tpp::invoke(id, [&] { log.push(1); b.enter(); });
        tpp::invoke(id, [&] { log.push(2); tt::process(); });
        {
            Raw r([&] {
                tpp::invoke(id, [&] { log.push(3); });
                b.release(id);
            });
            tpp::invoke(id, [&] { log.push(13); });
        }
        tpp::invoke(id, [&] { log.push(4); });
        mc::settle();
    }
    ordered(log, {1, 2, 3, 4});
    ordered(log, {1, 2, 13, 4});
}

// two nesting levels, each blocked in its own wait, batches arriving in between
SCENARIO(two_nested_waits, 4, 5, 0, 0)
{
    Session s;
    mc::Log<16> log;
    Blocking a(Blocking::fut_wait), b(Blocking::fut_wait);
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    tpp::invoke(id, [&] { log.push(1); a.enter(); });
    mc::settle();
    tpp::invoke(id, [&] { log.push(2); b.enter(); });
    tpp::invoke(id, [&] { log.push(3); });
    mc::settle();
    {
        Explore e;
        {
            Raw r([&] { a.release(id); tpp::invoke(id, [&] { log.push(5); }); });
            tpp::invoke(id, [&] { log.push(4); });
            b.release(id);
            tpp::invoke(id, [&] { log.push(6); });
        }
        mc::settle();
    }
    ordered(log, {1, 2, 3, 4, 6});
    ordered(log, {1, 2, 3, 5});
}

// long batches
SCENARIO(long_batches, 0, 0, 0, 0)
{
    tpp::init_data d;
    const size_t shr[] = {0, 8, 256, 1000};
    d.tasks_capacity.capacity_shrink_threashold = shr[mc::choose(4, "shrink threshold")];
    d.tasks_capacity.default_reserved_tasks = mc::choose(2, "reserve") ? 16 : 0;
    Session s(d);
    int k = 0;
    mc::Var<int> started{0};
    auto me = tt::get_id();
    auto send = [&] { tpp::invoke(me, [&, n = k++] {
        MC_CHECK(started == n, "task %d started as number %d", n, started.get());
        started = n + 1;
        if(n % 50 == 7 && n + 1 < k) tt::wait();
        if(n == 3 || n == 301) tt::process();
    }); };
    mc::max_steps(20000000);
    const int N = mc::choose(2, "length") ? 300 : 66000;
    for(int i = 0; i < N; ++i) send();
    for(int i = 0; i < 10 && started < k; ++i) tt::wait();
    for(int i = 0; i < 300; ++i) send();
    tt::process();
    MC_CHECK(started == N + 300, "all started");
}
