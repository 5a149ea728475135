#include "crowd.h"
// C19 with many threads and from deep inside of tasks.

SCENARIO(crowd, 0, 0, 0, 0)
{
    const int n = crowd_size;
    int tasks = mc::choose(2, "tasks"), rounds = 1 + mc::choose(2, "rounds");
    Session s;
    tpp::mutex mx;
    int owners = 0, total = 0;
    mc::Count served;
    mx.lock();
    Crowd c(n, [&](int) {
        for(int r = 0; r < rounds; ++r)
        {
            std::lock_guard<tpp::mutex> l(mx);
            MC_CHECK(++owners == 1, "two owners");
            MC_CHECK(!mx.try_lock(), "try_lock of an owned mutex");
            ++total;
            --owners;
        }
    });
    MC_CHECK((int)c.left == 0, "lock of an owned mutex returned");
    if(tasks)
    {
        for(auto& i : c.ids) tpp::invoke(i, [&] { served.add(); });
        mc::settle();
        MC_CHECK((int)served == n, "%d of %d blocked threads served their task", (int)served, n);
    }
    mx.unlock();
    mc::settle();
    MC_CHECK((int)c.left == n, "%d of %d threads got the mutex", (int)c.left, n);
    c.join();
    MC_CHECK(total == n * rounds, "sections %d", total);
    MC_CHECK(mx.try_lock(), "mutex not free at the end");
    mx.unlock();
}

// locked and unlocked at any depth of nested processing
SCENARIO(any_depth, 3, 4, 0, 0)
{
    int lock_at = mc::choose(4, "lock depth"), unlock_at = mc::choose(4, "unlock depth"), how = mc::choose(2, "try");
    Session s;
    tpp::mutex mx;
    mc::Var<int> state{0};
    auto at = [](int depth, std::function<void()> f) {
        std::function<void(int)> down = [&](int d) {
            if(d == 0) { f(); return; }
            tpp::invoke(tt::get_id(), [&, d] { down(d - 1); });
            tt::process();
        };
        down(depth);
    };
    at(lock_at, [&] {
        if(how) MC_CHECK(mx.try_lock(), "free mutex not taken");
        else mx.lock();
    });
    Raw r([&] {
        tt::register_this_thread();
        at(unlock_at == lock_at ? 0 : lock_at, [&] {
            state = 1;
            mx.lock();
            state = 2;
            mx.unlock();
        });
        tt::unregister_this_thread();
    });
    {
        Explore e;
        at(unlock_at, [&] { mx.unlock(); });
        mc::settle();
    }
    MC_CHECK(state == 2, "a waiting thread did not get the unlocked mutex");
    r.join();
}

// many rounds of handing over
SCENARIO(many_rounds, 0, 0, 0, 0)
{
    const int n = 300;
    mc::max_steps(2000000);
    Session s;
    tpp::mutex mx;
    int total = 0;
    auto work = [&] {
        for(int i = 0; i < n; ++i)
        {
            std::lock_guard<tpp::mutex> l(mx);
            ++total;
            mc::yield();
        }
    };
    {
        Crowd c(3, [&](int) { work(); });
        c.join();
    }
    MC_CHECK(total == 3 * n, "sections %d", total);
}
