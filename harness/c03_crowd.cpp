#include "crowd.h"
// C03 with deep stacks of blocked calls and many blocked threads.

// a stack of blocked calls of every kind serves the next task at every depth; then all are released from the inside out or the other way round
SCENARIO(very_deep, 0, 0, 0, 0)
{
    static const int more[] = {24, 33, 52, 65, 100, 130};
    int depth = mc::choose(22, "depth"), base = mc::choose(9, "kind"), outside_first = mc::choose(2, "outer first");
    depth = depth < 16 ? depth + 1 : more[depth - 16];
    Session s;
    auto t = tpp::make_thread();
    std::vector<std::unique_ptr<Blocking>> b;
    static const int kinds[] = {Blocking::cv_wait, Blocking::fut_wait, Blocking::cv_wait_for, Blocking::mutex_lock, Blocking::fut_wait_for, Blocking::wait, Blocking::shared_get, Blocking::wait_for, Blocking::fut_void_get};
    mc::Count served;
    auto t0 = mc::now();
    for(int d = 0; d < depth; ++d)
    {
        b.push_back(std::make_unique<Blocking>(kinds[(base + d) % 9]));
        tpp::invoke(t.get_id(), [x = b.back().get()] { x->enter(); });
        mc::settle();
        MC_CHECK(b.back()->entered == 1, "task %d not served by a thread blocked in %s", d, d ? kind_name(b[d - 1]->kind) : "its loop");
    }
    tpp::invoke(t.get_id(), [&] { served.add(); });
    mc::settle();
    MC_CHECK((int)served == 1, "last task not served");
    for(int k = 0; k < depth; ++k) b[outside_first ? k : depth - 1 - k]->release(t.get_id());
    mc::settle();
    for(int d = 0; d < depth; ++d) MC_CHECK(b[d]->left == 1, "call %d (%s) not released", d, kind_name(b[d]->kind));
    MC_CHECK(mc::now() - t0 < 1000000000, "released by timeout");
    t.join();
}

// many threads blocked in the same call are all served
SCENARIO(crowd, 0, 0, 0, 0)
{
    const int n = crowd_size - 2;
    int kind = mc::choose(Blocking::all_kinds, "kind");
    if(Blocking::is_sleep(kind) || kind == Blocking::fut_get || kind == Blocking::fut_void_get) kind = Blocking::cv_wait;
    Session s;
    Blocking b(kind);
    std::vector<mc::Count> served(n);
    {
        Crowd c(n, [&](int) { b.enter(); });
        for(int round = 1; round <= 2; ++round)
        {
            for(int i = 0; i < n; ++i) tpp::invoke(c.ids[i], [&, i] { served[i].add(); });
            mc::settle();
            for(int i = 0; i < n; ++i) MC_CHECK((int)served[i] == round, "thread %d blocked in %s served %d of %d tasks", i, kind_name(kind), (int)served[i], round);
        }
        b.release(c.ids[0]);
        if(Blocking::is_thread_wait(kind)) for(auto& i : c.ids) tpp::notify(i);
        c.join();
    }
}
