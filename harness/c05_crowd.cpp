#include "crowd.h"
// C05 with many pending tasks.

SCENARIO(many_pending, 0, 0, 0, 0)
{
    const int n[] = {1, 17, 257, 1100};
    int count = n[mc::choose(4, "tasks")];
    Session s;
    Life life;
    mc::Count runs;
    Gate in, go;
    auto t = tpp::make_thread();
    tpp::invoke(t.get_id(), [&] {
        in.open();
        go.pass();
    });
    mc::settle();
    for(int i = 0; i < count; ++i) MC_CHECK(tpp::invoke(t.get_id(), [&, x = Tracked(life)] { runs.add(); }), "refused");
    MC_CHECK((int)life.live == count, "%d live callables, expected %d", (int)life.live, count);
    tpp::notify_for_exit(t.get_id());
    go.open();
    t.join();
    MC_CHECK((int)runs == 0, "%d tasks ran after the exit", (int)runs);
    MC_CHECK((int)life.live == 0, "%d callables not destroyed", (int)life.live);
}
