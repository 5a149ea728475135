#include "crowd.h"
// C06 at any depth of processing.

SCENARIO(any_depth, 0, 0, 0, 0)
{
    static const int depths[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 20, 32, 33, 40, 64, 65, 100, 128, 129};
    int depth = depths[mc::choose(22, "depth")], what = mc::choose(9, "what");
    Session s;
    tid me = tt::get_id();
    mc::Count ran;
    auto probe = [&] { ran.add(); };
    std::function<void(int)> down = [&](int d) {
        if(d > 0)
        {
            tpp::invoke(me, [&, d] { down(d - 1); });
            tt::process();
            return;
        }
        bool inline_expected = true;
        tpp::future<void> f;
        auto ready = [] { return tpp::make_ready_future(); };
        switch(what)
        {
            case 0: tpp::dispatch(me, probe); break;
            case 1: f = tpp::async(me, probe); break;
            case 2: f = tpp::async(me, std::launch::deferred, probe); break;
            case 3: f = tpp::async(me, std::launch::async, probe); inline_expected = false; break;
            case 4: tpp::invoke(me, probe); inline_expected = false; break;
            case 5: f = ready().then(me, [&](tpp::future<void>) { ran.add(); }); break;
            case 6: f = ready().then(tpp::caller_id(), std::launch::deferred, [&](tpp::future<void>) { ran.add(); }); break;
            case 7: f = ready().then(me, std::launch::async, [&](tpp::future<void>) { ran.add(); }); inline_expected = false; break;
            case 8: f = tpp::async(tpp::caller_id(), probe); break;
        }
        MC_CHECK((int)ran == inline_expected, "at depth %d: ran %d times before the call returned", (int)tt::get_depth(), (int)ran);
        tt::process();
        MC_CHECK((int)ran == 1, "ran %d times", (int)ran);
    };
    down(depth);
}
