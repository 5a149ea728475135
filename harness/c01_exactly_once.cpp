#include "common.h"
// C01: an accepted task runs exactly once, on the thread it was sent to.

SCENARIO(two_senders_two_tasks, 8, 99, 0, 0)
{
    Session s;
    Probe p[4];
    {
        auto t = tpp::make_thread("T");
        auto id = t.get_id();
        mc::settle();
        Explore e;
        {
            Raw r([&] {
                MC_CHECK(tpp::invoke(id, [&] { p[0].hit(); }), "send accepted");
                MC_CHECK(tpp::invoke(id, [&] { p[1].hit(); }), "send accepted");
            });
            MC_CHECK(tpp::invoke(id, [&] { p[2].hit(); }), "send accepted");
            MC_CHECK(tpp::dispatch(id, [&] { p[3].hit(); }), "send accepted");
        }
        mc::settle();
        for(auto& x : p) x.expect("task", 1, id);
    }
}

SCENARIO(three_senders, 8, 9, 0, 0)
{
    Session s;
    Probe p[3];
    {
        auto t = tpp::make_thread("T");
        auto id = t.get_id();
        mc::settle();
        Explore e;
        {
            Raw a([&] { MC_CHECK(tpp::invoke(id, [&] { p[0].hit(); }), "send accepted"); });
            Raw b([&] { MC_CHECK(tpp::invoke(id, [&] { p[1].hit(); }), "send accepted"); });
            MC_CHECK(tpp::invoke(id, [&] { p[2].hit(); }), "send accepted");
        }
        mc::settle();
        for(auto& x : p) x.expect("task", 1, id);
    }
}

// the receiver starts while the first tasks arrive
SCENARIO(send_during_startup, 8, 99, 0, 1)
{
    Session s;
    Probe p[2];
    {
        Explore e;
        auto t = tpp::make_thread("T");
        auto id = t.get_id();
        MC_CHECK(tpp::invoke(id, [&] { p[0].hit(); }), "send accepted");
        MC_CHECK(tpp::invoke(id, [&] { p[1].hit(); }), "send accepted");
        mc::settle();
        for(auto& x : p) x.expect("task", 1, id);
    }
}

// tasks that send on: A -> B -> A -> self
SCENARIO(relay, 99, 99, 0, 0)
{
    Session s;
    Probe p[4];
    {
        auto a = tpp::make_thread("A");
        auto b = tpp::make_thread("B");
        auto ia = a.get_id(), ib = b.get_id();
        mc::settle();
        Explore e;
        MC_CHECK(tpp::invoke(ia, [&] {
            p[0].hit();
            MC_CHECK(tpp::invoke(ib, [&] {
                p[1].hit();
                MC_CHECK(tpp::invoke(ia, [&] {
                    p[2].hit();
                    MC_CHECK(tpp::invoke(ia, [&] { p[3].hit(); }), "self send accepted");
                }), "send accepted");
            }), "send accepted");
        }), "send accepted");
        mc::settle();
        p[0].expect("task 0", 1, ia);
        p[1].expect("task 1", 1, ib);
        p[2].expect("task 2", 1, ia);
        p[3].expect("task 3", 1, ia);
    }
}

// two targets at once: nothing is misrouted
SCENARIO(two_targets, 4, 5, 0, 0)
{
    Session s;
    Probe p[4];
    {
        auto a = tpp::make_thread("A");
        auto b = tpp::make_thread("B");
        auto ia = a.get_id(), ib = b.get_id();
        mc::settle();
        Explore e;
        {
            Raw r([&] {
                MC_CHECK(tpp::invoke(ia, [&] { p[0].hit(); }), "send accepted");
                MC_CHECK(tpp::invoke(ib, [&] { p[1].hit(); }), "send accepted");
            });
            MC_CHECK(tpp::invoke(ib, [&] { p[2].hit(); }), "send accepted");
            MC_CHECK(tpp::invoke(ia, [&] { p[3].hit(); }), "send accepted");
        }
        mc::settle();
        p[0].expect("task 0", 1, ia);
        p[1].expect("task 1", 1, ib);
        p[2].expect("task 2", 1, ib);
        p[3].expect("task 3", 1, ia);
    }
}

// every way of serving the queue; the receiver is the main thread
SCENARIO(served_by_any_call, 99, 99, 0, 0)
{
    Session s;
    Probe p[3];
    auto me = tt::get_id();
    int how = mc::choose(6, "serving call");
    mc::explore(true);
    {
        Raw r([&] {
            for(auto& x : p) MC_CHECK(tpp::invoke(me, [&x] { x.hit(); }), "send accepted");
        });
        switch(how)
        {
            case 0: while((int)p[2].runs == 0) tt::wait(); break;
            case 1: while((int)p[2].runs == 0) tt::wait_for(1h); break;
            case 2: while((int)p[2].runs == 0) { tt::process(); mc::yield(); } break;
            case 3: while((int)p[2].runs == 0) { tt::process_for(1h); mc::yield(); } break;
            case 4: tt::sleep_for(1ms); break;
            case 5: while((int)p[2].runs == 0) tt::wait_until(std::chrono::steady_clock::now() + 1h); break;
        }
    }
    tt::process();
    mc::explore(false);
    for(auto& x : p) x.expect("task", 1, me);
}

// queue capacities around the configured limits, batches of many tasks, tasks that refill the queue
SCENARIO(capacities, 0, 1, 0, 0)
{
    tpp::init_data d;
    const size_t res[] = {0, 1, 3, 16};
    const size_t shr[] = {0, 1, 2, 256};
    d.tasks_capacity.default_reserved_tasks = res[mc::choose(4, "reserved")];
    d.tasks_capacity.capacity_shrink_threashold = shr[mc::choose(4, "shrink threshold")];
    const int cnt[] = {1, 2, 3, 4, 5, 9, 17};
    int n = cnt[mc::choose(7, "tasks")];
    bool refill = mc::choose(2, "refill");
    bool cfg = mc::choose(2, "reconfigure");
    Session s(d);
    std::vector<Probe> p(64);
    auto me = tt::get_id();
    for(int round = 0; round < 2; ++round)
    {
        if(cfg) tpp::set_thread_config(me, {size_t(round + 1), size_t(round)});
        int k = 0;
        for(int i = 0; i < n; ++i, ++k)
        {
            int extra = n + i;
            MC_CHECK(tpp::invoke(me, [&, k, extra] {
                p[k].hit();
                if(refill) MC_CHECK(tpp::invoke(me, [&, extra] { p[extra].hit(); }), "nested send accepted");
            }), "send accepted");
        }
        tt::process();
        int total = refill ? 2 * n : n;
        for(int i = 0; i < total; ++i) p[i].expect("task", round + 1, me);
        for(int i = total; i < 64; ++i) p[i].expect("unsent task", 0, me);
        MC_CHECK(tpp::get_pending_task_count(me) == 0, "queue empty after processing");
    }
}

SCENARIO(bulk, 0, 1, 0, 0)
{
    tpp::init_data d;
    const size_t shr[] = {256, 8, 700};
    d.tasks_capacity.capacity_shrink_threashold = shr[mc::choose(3, "shrink threshold")];
    Session s(d);
    const int N = 600;
    std::vector<Probe> p(N);
    {
        auto t = tpp::make_thread("T");
        auto id = t.get_id();
        Gate g;
        tpp::invoke(id, [&] { g.pass(); });
        for(int i = 0; i < N / 2; ++i) MC_CHECK(tpp::invoke(id, [&, i] { p[i].hit(); }), "send accepted");
        g.open();
        mc::settle();
        for(int i = N / 2; i < N; ++i) MC_CHECK(tpp::invoke(id, [&, i] { p[i].hit(); }), "send accepted");
        mc::settle();
        for(int i = 0; i < N; ++i) p[i].expect("task", 1, id);
    }
}

// nested processing while others keep sending
SCENARIO(nested_processing_with_sender, 99, 99, 0, 0)
{
    Session s;
    Probe p[4];
    auto me = tt::get_id();
    mc::explore(true);
    {
        MC_CHECK(tpp::invoke(me, [&] {
            p[0].hit();
            while((int)p[2].runs == 0) tt::wait();
        }), "send accepted");
        MC_CHECK(tpp::invoke(me, [&] { p[1].hit(); tt::process(); }), "send accepted");
        Raw r([&] {
            MC_CHECK(tpp::invoke(me, [&] { p[2].hit(); }), "send accepted");
            MC_CHECK(tpp::invoke(me, [&] { p[3].hit(); }), "send accepted");
        });
        tt::process();
        while((int)p[3].runs == 0) tt::wait();
    }
    mc::explore(false);
    tt::process();
    for(auto& x : p) x.expect("task", 1, me);
}

// the queue is reconfigured while tasks are in it, before, between and after them
SCENARIO(reconfigured, 0, 1, 0, 0)
{
    const size_t res[] = {0, 1, 3, 40}, shr[] = {0, 1, 2, 256};
    tpp::init_data d;
    d.tasks_capacity.default_reserved_tasks = res[mc::choose(3, "initial")];
    Session s(d);
    Probe p[16];
    int sent = 0;
    {
        auto t = tpp::make_thread("T");
        auto id = t.get_id();
        mc::settle();
        std::vector<std::unique_ptr<Gate>> gates;
        auto hold = [&] {
            gates.push_back(std::make_unique<Gate>());
            auto* g = gates.back().get();
            tpp::invoke(id, [g] { g->pass(); });
            mc::settle();
        };
        auto free = [&] {
            gates.back()->open();
            mc::settle();
            for(int i = 0; i < sent; ++i) p[i].expect("task", 1, id);
        };
        hold();
        for(int i = 0; i < (mc_thorough() ? 6 : 5); ++i)
        {
            int op = mc::choose(6, "op");
            if(op < 4) MC_CHECK(tpp::set_thread_config(id, {res[op], shr[3 - op]}), "accepted");
            else if(op == 4) { free(); hold(); }
            else
            {
                int k = sent++;
                MC_CHECK(tpp::invoke(id, [&p, k] { p[k].hit(); }), "send accepted");
            }
        }
        free();
        int k = sent++;
        MC_CHECK(tpp::invoke(id, [&p, k] { p[k].hit(); }), "send accepted");
        free();
    }
}
SCENARIO(reconfigured_while_sending, 4, 5, 0, 0)
{
    const size_t res[] = {0, 1, 4};
    size_t r = res[mc::choose(3, "reserve")];
    size_t sh = mc::choose(2, "shrink");
    tpp::init_data d;
    d.tasks_capacity.default_reserved_tasks = 0;
    d.tasks_capacity.capacity_shrink_threashold = sh;
    Session s(d);
    Probe p[3];
    {
        auto t = tpp::make_thread("T");
        auto id = t.get_id();
        mc::settle();
        Explore e;
        {
            Raw a([&] { MC_CHECK(tpp::set_thread_config(id, {r, 1 - sh}), "accepted"); MC_CHECK(tpp::invoke(id, [&] { p[0].hit(); }), "accepted"); });
            MC_CHECK(tpp::invoke(id, [&] { p[1].hit(); }), "accepted");
            MC_CHECK(tpp::invoke(id, [&] { p[2].hit(); }), "accepted");
        }
        mc::settle();
        for(auto& x : p) x.expect("task", 1, id);
    }
}

// a very long queue, built up at once or in two pieces, on the sending thread or a busy one
SCENARIO(thousands, 0, 0, 0, 0)
{
    tpp::init_data d;
    bool self = mc::choose(2, "self"), pieces = mc::choose(2, "two pieces");
    Session s(d);
    mc::max_steps(20000000);
    const int N = 66000;
    std::vector<unsigned char> runs(N);
    mc::Count total;
    auto send = [&](tid id, int from, int to) {
        for(int i = from; i < to; ++i) MC_CHECK(tpp::invoke(id, [&, i] { ++runs[i]; total.add(); }), "send accepted");
    };
    auto work = [&](tid id, auto&& serve) {
        send(id, 0, pieces ? N / 2 + 1 : N);
        serve();
        if(pieces) { send(id, N / 2 + 1, N); serve(); }
    };
    if(self) work(tt::get_id(), [] { tt::process(); });
    else
    {
        auto t = tpp::make_thread("T");
        auto id = t.get_id();
        work(id, [&] { tpp::async(id, [] {}).get(); });
    }
    MC_CHECK((int)total == N, "%d of %d tasks ran", (int)total, N);
    for(int i = 0; i < N; ++i) MC_CHECK(runs[i] == 1, "task %d ran %d times", i, (int)runs[i]);
}
