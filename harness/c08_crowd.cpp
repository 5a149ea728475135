#include "crowd.h"
// C08 with many threads.

SCENARIO(crowd, 0, 0, 0, 0)
{
    const int n = crowd_size;
    static const int counts[] = {0, 1, 5, 16, 24};
    int stubborn = counts[mc::choose(5, "stubborn")], kind = mc::choose(3, "kind");
    tpp::init();
    Gate g;
    mc::Count left;
    std::vector<std::unique_ptr<Raw>> raw;
    std::vector<tpp::thread> made;
    for(int i = 0; i < n; ++i)
    {
        if(kind == 0 && i >= stubborn) { made.push_back(tpp::make_thread()); continue; }
        raw.push_back(std::make_unique<Raw>([&, i] {
            tt::register_this_thread();
            if(i < stubborn) g.pass();
            else if(kind == 1) while(!tt::notified_for_exit()) tt::wait();
            else tt::sleep_for(1h);
            left.add();
            tt::unregister_this_thread();
        }));
    }
    mc::settle();
    auto t0 = mc::now();
    int r = tpp::shutdown(3s);
    auto took = mc::now() - t0;
    MC_CHECK(r == stubborn, "shutdown returned %d, %d threads were left", r, stubborn);
    MC_CHECK((int)tpp::get_all_registered_threads().size() == stubborn, "%d threads registered", (int)tpp::get_all_registered_threads().size());
    if(stubborn) MC_CHECK(took >= 3000000000ll && took < 3100000000ll, "took %lld ns", (long long)took);
    else MC_CHECK(took < 100000000, "took %lld ns although all threads left at once", (long long)took);
    g.open();
    raw.clear();
    made.clear();
    MC_CHECK(tpp::get_all_registered_threads().empty(), "threads registered");
}

// many matched inits
SCENARIO(deep_nesting, 0, 0, 0, 0)
{
    static const int counts[] = {2, 20, 300, 70000};
    int n = counts[mc::choose(4, "inits")];
    mc::max_steps(3000000);
    for(int i = 0; i < n; ++i) tpp::init();
    auto t = tpp::make_thread();
    mc::settle();
    for(int i = 1; i < n; ++i)
    {
        MC_CHECK(tpp::shutdown() == -1, "inner shutdown %d took effect", i);
        if(i < 3 || i > n - 3) MC_CHECK(listed(t.get_id()) && listed(tt::get_id()), "threads gone after an inner shutdown");
    }
    MC_CHECK(tpp::shutdown() == 0, "last shutdown");
    MC_CHECK(tpp::get_all_registered_threads().empty(), "threads left");
    MC_CHECK(tpp::shutdown() == -1, "unmatched shutdown");
}

// whatever time is given, it is waited for in full and not longer; a thread that leaves in time counts as gone
SCENARIO(any_time, 0, 0, 0, 0)
{
    static const int64_t times[] = {0, 1, 4, 5, 6, 9, 10, 11, 30, 59, 60, 61, 127, 128, 255, 256, 300, 1000, 3599, 3600, 3601, 32768, 65535, 65536, 86400, 86401, 1000000, 2147483, 2147484, 4294968, 10000000};
    int64_t secs = times[mc::choose(sizeof(times) / sizeof(*times), "time")];
    int leaves = mc::choose(2, "leaves");
    if(leaves && secs == 0) return;
    mc::max_steps(2000000);
    tpp::init();
    {
        Gate g;
        // only short times for an implementation that looks again and again
        std::thread t([&] { tt::register_this_thread(); g.pass(); tt::unregister_this_thread(); });
        while(tpp::get_all_registered_threads().size() < 2) std::this_thread::yield();
        bool again = false;
        bool ok = affordable(secs, [&](std::chrono::seconds d) {
            if(again) tpp::init();
            again = true;
            MC_CHECK(tpp::shutdown(d) == 1, "one thread left");
        });
        if(!again) tpp::shutdown(std::chrono::seconds(0));
        g.open();
        t.join();
        if(!ok) return;
    }
    tpp::init();
    Gate g;
    std::thread t([&] {
        tt::register_this_thread();
        if(leaves) std::this_thread::sleep_for(std::chrono::milliseconds(secs * 1000 - 500));
        else g.pass();
        tt::unregister_this_thread();
    });
    while(tpp::get_all_registered_threads().size() < 2) std::this_thread::yield();
    auto t0 = mc::now();
    int r = tpp::shutdown(std::chrono::seconds(secs));
    int64_t took = (mc::now() - t0) / 1000000, want = secs * 1000 - (leaves ? 500 : 0);
    MC_CHECK(r == !leaves, "shutdown returned %d", r);
    MC_CHECK(took >= want - 1 && took < want + 100, "shutdown took %lld ms instead of %lld", (long long)took, (long long)want);
    g.open();
    t.join();
    MC_CHECK(tpp::get_all_registered_threads().empty(), "threads registered");
}
