#include "common.h"
// C10: task counters equal what is queued and running.

namespace
{
// reference: accepted and not completed tasks of the main thread, nesting level
struct Ref
{
    tid me = tt::get_id();
    int open = 0, depth = 0, budget;
    explicit Ref(int b) : budget(b) {}
    void look(const char* when)
    {
        int c = (int)tpp::get_pending_task_count(me);
        MC_CHECK(c == open, "%s: pending count is %d, reference says %d", when, c, open);
        auto i = tpp::get_pending_task_count_detailed(me);
        MC_CHECK((int)i.count == open, "%s: detailed count is %d, reference says %d", when, (int)i.count, open);
        MC_CHECK((int)tt::get_depth() == depth, "%s: depth is %d, reference says %d", when, (int)tt::get_depth(), depth);
    }
    void send()
    {
        MC_CHECK(tpp::invoke(me, [this] { body(); }), "accepted");
        ++open;
    }
    void body()
    {
        ++depth;
        look("task start");
        step();
        look("task end");
        --depth;
        --open; // completed when the body returns; looked at after the processing call
    }
    void step()
    {
        if(budget <= 0) return;
        --budget;
        switch(mc::choose(6, "op"))
        {
            case 0: break;
            case 1: send(); look("after send"); break;
            case 2: tt::process(); look("after process"); break;
            case 3: send(); tt::process(); look("after process"); break;
            case 4: tt::wait_for(2us); look("after wait_for"); break;
            case 5: send(); send(); tt::wait(); look("after wait"); break;
        }
    }
};
} // namespace
SCENARIO(programs, 0, 0, 0, 0)
{
    tpp::init_data d;
    int cap = mc::choose(2, "capacity");
    d.tasks_capacity.default_reserved_tasks = cap ? 1 : 16;
    d.tasks_capacity.capacity_shrink_threashold = cap ? 1 : 256;
    Session s(d);
    Ref r(mc_thorough() ? 7 : 6);
    r.look("start");
    r.send();
    r.send();
    r.look("two sent");
    while(r.budget > 0)
    {
        r.step();
        r.look("top level");
    }
    tt::process();
    r.look("all processed");
    MC_CHECK(r.open == 0, "everything processed");
}

// a remote observer while tasks run on a worker and senders send
SCENARIO(remote_observer, 99, 99, 0, 0)
{
    Session s;
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    mc::settle();
    const int N = 2;
    mc::Var<int> begun{0}, ended{0}, sent{0};
    {
        Explore e;
        Raw r([&] {
            for(int i = 0; i < N; ++i)
            {
                tpp::invoke(id, [&] { begun = begun + 1; ended = ended + 1; });
                sent = i + 1;
            }
        });
        for(int k = 0; k < 2; ++k)
        {
            int s1 = sent, b1 = begun;
            int c = (int)tpp::get_pending_task_count(id);
            int e2 = ended, s2 = sent;
            // all but the last begun task have completed before the call
            int hi = std::min(s2 + 1, N) - std::max(0, b1 - 1), lo = s1 - e2;
            MC_CHECK(c <= hi && c >= lo, "count %d outside [%d,%d]", c, lo, hi);
            mc_observe("%d", c);
        }
    }
    mc::settle();
    MC_CHECK(tpp::get_pending_task_count(id) == 0, "idle thread has a count of %d", (int)tpp::get_pending_task_count(id));
}

// counts of a blocked worker, exact at quiescence
SCENARIO(blocked_worker, 0, 1, 0, 0)
{
    Session s;
    auto t = tpp::make_thread("T");
    auto id = t.get_id();
    mc::settle();
    int kind = mc::choose(Blocking::simple_kinds, "call");
    int depth = 1 + mc::choose(3, "depth");
    std::vector<std::unique_ptr<Blocking>> b;
    mc::Var<int> dmax{0};
    for(int i = 0; i < depth; ++i)
    {
        b.push_back(std::make_unique<Blocking>(kind));
        auto* x = b.back().get();
        tpp::invoke(id, [&, x, i] {
            MC_CHECK((int)tt::get_depth() == i + 1, "depth %d inside nesting level %d", (int)tt::get_depth(), i + 1);
            x->enter();
            MC_CHECK((int)tt::get_depth() == i + 1, "depth %d after the blocking call at nesting level %d", (int)tt::get_depth(), i + 1);
        });
        mc::settle();
        MC_CHECK((int)tpp::get_pending_task_count(id) == i + 1, "count %d with %d tasks running", (int)tpp::get_pending_task_count(id), i + 1);
    }
    // queue while it runs plain user code
    Gate g;
    tpp::invoke(id, [&] { g.pass(); });
    mc::settle();
    for(int i = 0; i < 3; ++i)
    {
        tpp::invoke(id, [] {});
        MC_CHECK((int)tpp::get_pending_task_count(id) == depth + 2 + i, "count %d, expected %d", (int)tpp::get_pending_task_count(id), depth + 2 + i);
    }
    g.open();
    mc::settle();
    MC_CHECK((int)tpp::get_pending_task_count(id) == depth, "count %d with %d tasks blocked", (int)tpp::get_pending_task_count(id), depth);
    for(int i = depth - 1; i >= 0; --i)
    {
        b[i]->release(id);
        mc::settle();
        if(Blocking::is_sleep(kind))
        {
            tt::sleep_for(2 * Blocking::nap);
            mc::settle();
        }
        else if(!Blocking::is_thread_wait(kind))
            MC_CHECK((int)tpp::get_pending_task_count(id) == i, "count %d after release, %d left", (int)tpp::get_pending_task_count(id), i);
    }
    MC_CHECK((int)tpp::get_pending_task_count(id) == 0, "count %d at the end", (int)tpp::get_pending_task_count(id));
}

// names, unknown threads
SCENARIO(names, 0, 0, 0, 0)
{
    Session s;
    auto a = tpp::make_thread("alpha"), b = tpp::make_thread(), c = tpp::thread([] { tt::register_this_thread("inner"); while(!tt::notified_for_exit()) tt::wait(); tt::unregister_this_thread(); });
    bool settled = mc::choose(2, "settle");
    if(settled) mc::settle();
    MC_CHECK(tpp::get_pending_task_count_detailed(a.get_id()).thread_name == "alpha", "name");
    MC_CHECK(tpp::get_pending_task_count_detailed(b.get_id()).thread_name == std::to_string(b.get_id()), "name of a nameless thread");
    for(int n : {15, 16, 64, 300})
    {
        auto l = tpp::make_thread(std::string(n, 'x') + "y");
        MC_CHECK(tpp::get_pending_task_count_detailed(l.get_id()).thread_name == std::string(n, 'x') + "y", "long name");
    }
    auto cn = tpp::get_pending_task_count_detailed(c.get_id()).thread_name;
    MC_CHECK((!settled && cn == std::to_string(c.get_id())) || cn == "inner", "name %s", cn.c_str());
    MC_CHECK(tpp::get_pending_task_count(9999) == 0 && tpp::get_pending_task_count(0) == 0, "unknown thread");
    MC_CHECK(tpp::get_pending_task_count_detailed(9999).count == 0, "unknown thread");
    auto old = a.get_id();
    a.join();
    MC_CHECK(tpp::get_pending_task_count(old) == 0, "finished thread");
    {
        Raw r([&] {
            tt::register_this_thread("raw");
            auto me = tt::get_id();
            tpp::invoke(me, [] {});
            auto i = tpp::get_pending_task_count_detailed(me);
            MC_CHECK(i.count == 1 && i.thread_name == "raw", "raw thread");
            tt::unregister_this_thread();
            MC_CHECK(tpp::get_pending_task_count(me) == 0 && tt::get_depth() == 0, "unregistered");
        });
    }
    // pending tasks of many kinds
    auto me = tt::get_id();
    for(int i = 0; i < 300; ++i)
    {
        tpp::invoke(me, [] {});
        MC_CHECK((int)tpp::get_pending_task_count(me) == i + 1, "count while queueing");
    }
    for(int i = 299; i >= 0; --i)
    {
        tt::wait();
        MC_CHECK((int)tpp::get_pending_task_count(me) == i, "count while serving");
    }
}
