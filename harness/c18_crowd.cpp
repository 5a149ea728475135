#include "crowd.h"
// C18 with many waiters.

SCENARIO(crowd, 0, 0, 0, 0)
{
    const int n = crowd_size;
    int kind = mc::choose(3, "kind"), steps = mc::choose(6, "steps"), tasks = mc::choose(2, "tasks");
    Session s;
    tpp::condition_variable cv;
    std::mutex m;
    int inside = 0;
    mc::Count served;
    auto t0 = mc::now();
    Crowd c(n, [&](int i) {
        std::unique_lock<std::mutex> l(m);
        ++inside;
        std::cv_status r = std::cv_status::no_timeout;
        if(kind == 0 || (kind == 2 && i % 2)) cv.wait(l);
        else r = cv.wait_for(l, 1h);
        MC_CHECK(l.owns_lock(), "lock not held");
        MC_CHECK(r == std::cv_status::no_timeout, "timeout");
        --inside;
    });
    if(tasks)
    {
        for(auto& i : c.ids) tpp::invoke(i, [&] { std::lock_guard<std::mutex> l(m); served.add(); });
        mc::settle();
        MC_CHECK((int)served == n, "%d of %d blocked threads served their task", (int)served, n);
    }
    MC_CHECK((int)c.left == 0, "released without a notification");
    static const int ones[] = {0, 1, 5, 13, n - 1, n};
    for(int k = 0; k < ones[steps]; ++k)
    {
        cv.notify_one();
        mc::settle();
        MC_CHECK((int)c.left == k + 1, "%d waiters released by %d notify_one", (int)c.left, k + 1);
    }
    if(ones[steps] < n) cv.notify_all();
    mc::settle();
    MC_CHECK((int)c.left == n, "%d of %d waiters released", (int)c.left, n);
    c.join();
    MC_CHECK(inside == 0 && mc::now() - t0 < 1000000000, "end state");
}

// one waiter, many rounds
SCENARIO(many_rounds, 0, 0, 0, 0)
{
    int kind = mc::choose(2, "kind"), all = mc::choose(2, "all");
    const int n = 300;
    mc::max_steps(2000000);
    Session s;
    tpp::condition_variable cv;
    std::mutex m;
    int turn = 0;
    Raw r([&] {
        tt::register_this_thread();
        std::unique_lock<std::mutex> l(m);
        for(int i = 0; i < n; ++i)
        {
            while(turn % 2 == 0)
            {
                if(kind == 0) cv.wait(l);
                else MC_CHECK(cv.wait_for(l, 1h) == std::cv_status::no_timeout, "timeout");
            }
            ++turn;
            cv.notify_all();
        }
        l.unlock();
        tt::unregister_this_thread();
    });
    {
        std::unique_lock<std::mutex> l(m);
        for(int i = 0; i < n; ++i)
        {
            ++turn;
            if(all) cv.notify_all();
            else cv.notify_one();
            while(turn % 2 == 1) cv.wait(l);
        }
    }
    r.join();
    MC_CHECK(turn == 2 * n, "turns %d", turn);
}
