#include "crowd.h"
// C10 with many tasks and deep stacks.

SCENARIO(many, 0, 0, 0, 0)
{
    static const int counts[] = {15, 16, 17, 255, 256, 257, 700, 3000};
    int n = counts[mc::choose(8, "tasks")];
    mc::max_steps(3000000);
    Session s;
    tid me = tt::get_id();
    int ran = 0;
    for(int i = 0; i < n; ++i)
    {
        MC_CHECK((int)tpp::get_pending_task_count(me) == i, "%d tasks reported, %d accepted", (int)tpp::get_pending_task_count(me), i);
        tpp::invoke(me, [&, i] {
            MC_CHECK((int)tt::get_depth() == 1, "depth");
            MC_CHECK((int)tpp::get_pending_task_count(me) == n - i, "%d tasks reported, %d not completed", (int)tpp::get_pending_task_count(me), n - i);
            ++ran;
        });
    }
    tt::process();
    MC_CHECK(ran == n && tpp::get_pending_task_count(me) == 0, "counts at the end");
}

SCENARIO(deep, 0, 0, 0, 0)
{
    int depth = 1 + mc::choose(40, "depth");
    Session s;
    tid me = tt::get_id();
    int level = 0, max = 0;
    std::function<void()> down = [&] {
        ++level;
        max = std::max(max, level);
        MC_CHECK((int)tt::get_depth() == level, "depth %d at level %d", (int)tt::get_depth(), level);
        MC_CHECK((int)tpp::get_pending_task_count(me) == level, "%d tasks reported at level %d", (int)tpp::get_pending_task_count(me), level);
        if(level < depth)
        {
            tpp::invoke(me, down);
            MC_CHECK((int)tpp::get_pending_task_count(me) == level + 1, "after sending");
            tt::process();
        }
        MC_CHECK((int)tt::get_depth() == level, "depth %d on the way back at level %d", (int)tt::get_depth(), level);
        MC_CHECK((int)tpp::get_pending_task_count(me) == level, "%d tasks reported on the way back at level %d", (int)tpp::get_pending_task_count(me), level);
        --level;
    };
    tpp::invoke(me, [&] { down(); });
    tt::process();
    MC_CHECK(level == 0 && max == depth && tt::get_depth() == 0 && tpp::get_pending_task_count(me) == 0, "end state");
}
