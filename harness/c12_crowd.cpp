#include "crowd.h"
// C12 with many waiters.

SCENARIO(crowd, 0, 0, 0, 0)
{
    const int n = crowd_size;
    int kind = mc::choose(4, "kind"), error = mc::choose(2, "error"), expired = mc::choose(2, "expired before");
    Session s;
    tpp::promise<int> p;
    auto f = p.get_future().share();
    std::vector<mc::Var<int>> code(n);
    auto t0 = mc::now();
    Crowd c(n, [&](int i) {
        auto mine = f;
        if(expired) MC_CHECK(mine.wait_for(1ms) == std::future_status::timeout, "not expired");
        int k = kind == 3 ? i % 3 : kind;
        if(k == 0) mine.wait();
        else if(k == 1) MC_CHECK(mine.wait_for(1h) == std::future_status::ready, "not ready");
        MC_CHECK(mine.is_ready() || k == 2, "wait returned before the result");
        code[i] = get_code([&] { return (int)mine.get(); });
    });
    if(expired) tt::sleep_for(2ms), mc::settle();
    MC_CHECK((int)c.left == 0, "a wait returned before the result");
    if(error) p.set_exception(std::make_exception_ptr(Oops{3}));
    else p.set_value(5);
    mc::settle();
    MC_CHECK((int)c.left == n, "%d of %d waiters released", (int)c.left, n);
    c.join();
    for(int i = 0; i < n; ++i) MC_CHECK(code[i] == (error ? 1003 : 5), "waiter %d got %d", i, (int)code[i]);
    MC_CHECK(mc::now() - t0 < 1000000000, "released by timeout");
}
