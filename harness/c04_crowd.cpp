#include "crowd.h"
// C04 with many threads and with many calls on top of each other.

// all blocked in the same thing, told to exit one after the other
SCENARIO(crowd, 0, 0, 0, 0)
{
    const int n = crowd_size;
    int kind = mc::choose(6, "kind"), forward = mc::choose(2, "order");
    Session s;
    tpp::condition_variable cv;
    std::mutex m;
    tpp::promise<int> p;
    auto f = p.get_future().share();
    auto t0 = mc::now();
    std::vector<mc::Var<int>> out(n);
    Crowd c(n, [&](int i) {
        if(kind < 2)
        {
            std::unique_lock<std::mutex> l(m);
            if(kind == 0) cv.wait(l);
            else cv.wait_for(l, 1h);
        }
        else if(kind == 2) f.wait();
        else if(kind == 3) f.wait_for(1h);
        else if(kind == 4) tt::sleep_for(1h);
        else tt::wait();
        MC_CHECK(tt::notified_for_exit(), "call returned without an exit request");
        out[i] = 1;
    });
    for(int k = 0; k < n; ++k)
    {
        int i = forward ? k : n - 1 - k;
        tpp::notify_for_exit(c.ids[i]);
        mc::settle();
        MC_CHECK(out[i] == 1, "thread %d told to exit is still blocked", i);
        MC_CHECK((int)c.left == k + 1, "%d threads left after %d exit requests", (int)c.left, k + 1);
    }
    c.join();
    MC_CHECK(mc::now() - t0 < 1000000000, "time passed");
}

// an exit request ends all calls of a deep stack of nested ones
SCENARIO(deep, 0, 0, 0, 0)
{
    const int depth = 1 + mc::choose(12, "depth");
    int base = mc::choose(5, "kind");
    Session s;
    tpp::condition_variable cv;
    std::mutex m;
    tpp::promise<int> p;
    auto f = p.get_future().share();
    mc::Count in, out;
    auto t = tpp::make_thread();
    auto t0 = mc::now();
    for(int d = 0; d < depth; ++d)
    {
        tpp::invoke(t.get_id(), [&, d] {
            in.add();
            switch((base + d) % 5)
            {
                case 0: { std::unique_lock<std::mutex> l(m); cv.wait(l); break; }
                case 1: f.wait(); break;
                case 2: tt::sleep_for(1h); break;
                case 3: { std::unique_lock<std::mutex> l(m); cv.wait_for(l, 1h); break; }
                case 4: f.wait_for(1h); break;
            }
            MC_CHECK(tt::notified_for_exit(), "call returned without an exit request");
            out.add();
        });
        mc::settle();
        MC_CHECK((int)in == d + 1, "task %d not served by the blocked thread", d);
    }
    tpp::notify_for_exit(t.get_id());
    mc::settle();
    MC_CHECK((int)out == depth, "%d of %d nested calls ended", (int)out, depth);
    t.join();
    MC_CHECK(mc::now() - t0 < 1000000000, "time passed");
}
