#include "crowd.h"
// C28 for every type of exception, many in a row and through many levels.

SCENARIO(any_exception, 0, 0, 0, 0)
{
    int k = mc::choose(n_exceptions, "exception"), call = mc::choose(8, "call");
    Session s;
    tid me = tt::get_id();
    tpp::promise<int> p;
    auto f = p.get_future();
    tpp::condition_variable cv;
    std::mutex m;
    Life life;
    mc::Count later;
    tpp::invoke(me, [k, x = Tracked(life)] { throw_number(k); });
    tpp::invoke(me, [&] { later.add(); });
    int r = thrown_number([&] {
        switch(call)
        {
            case 0: tt::process(); break;
            case 1: tt::process_for(1s); break;
            case 2: tt::wait(); break;
            case 3: tt::wait_for(1s); break;
            case 4: tt::sleep_for(1s); break;
            case 5: { std::unique_lock<std::mutex> l(m); cv.wait(l); break; }
            case 6: f.wait(); break;
            case 7: f.wait_for(1s); break;
        }
    });
    MC_CHECK(r == k, "exception %d reached the caller as %d", k, r);
    MC_CHECK((int)life.live == 0, "task not destroyed");
    MC_CHECK(tt::get_depth() == 0 && tpp::get_pending_task_count(me) == 1 && (int)later == 0, "state after the exception");
    tt::process();
    MC_CHECK((int)later == 1 && tpp::get_pending_task_count(me) == 0, "remaining task");
    MC_CHECK(m.try_lock(), "lock left behind");
    m.unlock();
}

SCENARIO(many_in_a_row, 0, 0, 0, 0)
{
    int n = 1 + 99 * mc::choose(2, "tasks") + 199 * mc::choose(2, "more"), every = 1 + mc::choose(3, "every"), call = mc::choose(3, "call");
    mc::max_steps(3000000);
    Session s;
    tid me = tt::get_id();
    std::vector<int> order;
    for(int i = 0; i < n; ++i) tpp::invoke(me, [&, i] {
        order.push_back(i);
        MC_CHECK(tt::get_depth() == 1 && (int)tpp::get_pending_task_count(me) == n - i, "counts in task %d", i);
        if(i % every == 0) throw Oops{i};
    });
    int thrown = 0;
    while(tpp::get_pending_task_count(me) > 0)
        try
        {
            if(call == 0) tt::process();
            else if(call == 1) tt::process_for(1h);
            else tt::wait();
        }
        catch(const Oops& o)
        {
            MC_CHECK(order.back() == o.v, "exception of another task");
            ++thrown;
            MC_CHECK(tt::get_depth() == 0 && (int)tpp::get_pending_task_count(me) == n - 1 - o.v, "counts after task %d", o.v);
        }
    MC_CHECK((int)order.size() == n && thrown == (n + every - 1) / every, "%d tasks, %d exceptions", (int)order.size(), thrown);
    for(int i = 0; i < n; ++i) MC_CHECK(order[i] == i, "order");
}

SCENARIO(through_levels, 0, 0, 0, 0)
{
    int depth = 1 + mc::choose(12, "depth"), caught = mc::choose(13, "caught at"), call = mc::choose(4, "call");
    if(caught > depth) caught = depth;
    Session s;
    tid me = tt::get_id();
    tpp::condition_variable cv;
    std::mutex m;
    mc::Count later;
    bool was_caught = false;
    auto serve = [&](int how) {
        if(how == 0) tt::process();
        else if(how == 1) tt::wait();
        else if(how == 2) tt::sleep_for(1s);
        else
        {
            std::unique_lock<std::mutex> l(m);
            cv.wait_for(l, 1s);
        }
    };
    std::function<void(int)> down = [&](int d) {
        MC_CHECK((int)tt::get_depth() == d, "depth %d at level %d", (int)tt::get_depth(), d);
        if(d == depth) throw Oops{5};
        tpp::invoke(me, [&, d] { down(d + 1); });
        if(d == caught)
        {
            int c = get_code([&] { serve((d + call) % 4); return 0; });
            MC_CHECK(c == 1005, "exception reached the catching level as %d", c);
            was_caught = true;
        }
        else serve((d + call) % 4);
        MC_CHECK((int)tt::get_depth() == d && (int)tpp::get_pending_task_count(me) == d, "counts at level %d afterwards", d);
    };
    int c = get_code([&] { down(0); return 0; });
    MC_CHECK(c == (caught < depth ? 0 : 1005) && was_caught == (caught < depth), "outcome %d", c);
    MC_CHECK(tt::get_depth() == 0 && tpp::get_pending_task_count(me) == 0, "counts at the end");
    MC_CHECK(m.try_lock(), "lock left behind");
    m.unlock();
    tpp::invoke(me, [&] { later.add(); });
    tt::process();
    MC_CHECK((int)later == 1, "thread does not serve any more");
    // no registration is left: a notification for nobody wakes nobody
    cv.notify_all();
    MC_CHECK(tpp::get_pending_task_count(me) == 0, "notified although not waiting");
}
