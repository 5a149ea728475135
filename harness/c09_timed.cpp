#include "common.h"
// C09: timed waits end neither early nor late, and report the reason correctly.
// Durations are honoured to the resolution of one microsecond.
using steady = std::chrono::steady_clock;
using sys = std::chrono::system_clock;

static const int64_t US = 1000, SLACK = 100 * US; // virtual clock ticks count as no delay

enum Call
{
    c_wait_for, c_wait_until, c_wait_until_sys, c_sleep_for, c_sleep_until, c_sleep_until_sys,
    c_cv_for, c_cv_until, c_cv_until_sys,
    c_fut_for, c_fut_until, c_fut_until_sys, c_shared_for, c_void_for, c_shared_void_until,
    n_calls
};
static const char* call_name[] = {"wait_for", "wait_until", "wait_until(system)", "sleep_for", "sleep_until", "sleep_until(system)", "cv.wait_for", "cv.wait_until",
    "cv.wait_until(system)", "future.wait_for", "future.wait_until", "future.wait_until(system)", "shared.wait_for", "future<void>.wait_for", "shared<void>.wait_until"};
static bool is_sleep(int c) { return c >= c_sleep_for && c <= c_sleep_until_sys; }
static bool is_wait(int c) { return c <= c_wait_until_sys; }
static bool is_cv(int c) { return c >= c_cv_for && c <= c_cv_until_sys; }
static bool is_fut(int c) { return c >= c_fut_for; }

enum { st_timeout, st_no_timeout, st_ready, st_deferred, st_none };

namespace
{
struct Timed
{
    int call;
    std::chrono::nanoseconds d;
    std::mutex m;
    tpp::condition_variable cv;
    tpp::promise<int> p;
    tpp::promise<void> pv;
    tpp::future<int> f = p.get_future();
    tpp::future<void> fv = pv.get_future();
    tpp::shared_future<int> sf;
    tpp::shared_future<void> sfv;
    mc::Var<int> status{-1};
    mc::Var<uint64_t> begin{0}, end{0}, event{0};
    Timed(int c, std::chrono::nanoseconds dd) : call(c), d(dd)
    {
        if(c == c_shared_for) sf = f.share();
        if(c == c_shared_void_until) sfv = fv.share();
    }
    static int code(std::cv_status s) { return s == std::cv_status::timeout ? st_timeout : st_no_timeout; }
    static int code(std::future_status s) { return s == std::future_status::timeout ? st_timeout : s == std::future_status::ready ? st_ready : st_deferred; }
    void run()
    {
        begin = mc::now();
        auto until = steady::now() + d;
        auto until_sys = sys::now() + d;
        int r = st_none;
        switch(call)
        {
            case c_wait_for: r = code(tt::wait_for(d)); break;
            case c_wait_until: r = code(tt::wait_until(until)); break;
            case c_wait_until_sys: r = code(tt::wait_until(until_sys)); break;
            case c_sleep_for: tt::sleep_for(d); break;
            case c_sleep_until: tt::sleep_until(until); break;
            case c_sleep_until_sys: tt::sleep_until(until_sys); break;
            case c_cv_for: { std::unique_lock<std::mutex> l(m); r = code(cv.wait_for(l, d)); break; }
            case c_cv_until: { std::unique_lock<std::mutex> l(m); r = code(cv.wait_until(l, until)); break; }
            case c_cv_until_sys: { std::unique_lock<std::mutex> l(m); r = code(cv.wait_until(l, until_sys)); break; }
            case c_fut_for: r = code(f.wait_for(d)); break;
            case c_fut_until: r = code(f.wait_until(until)); break;
            case c_fut_until_sys: r = code(f.wait_until(until_sys)); break;
            case c_shared_for: r = code(sf.wait_for(d)); break;
            case c_void_for: r = code(fv.wait_for(d)); break;
            case c_shared_void_until: r = code(sfv.wait_until(until)); break;
        }
        end = mc::now();
        status = r;
    }
    void fire(tid waiter)
    {
        event = mc::now();
        if(is_wait(call)) tpp::notify(waiter);
        else if(is_cv(call)) { std::lock_guard<std::mutex> l(m); cv.notify_all(); }
        else if(call == c_void_for || call == c_shared_void_until) pv.set_value();
        else if(is_fut(call)) p.set_value(1);
    }
    int64_t took() { return (int64_t)(end - begin); }
    // late = false where the scheduler may let time pass while somebody could run
    void on_time(const char* when, bool late = true)
    {
        int64_t want = std::max<int64_t>(0, d.count());
        MC_CHECK(took() > want - US, "%s returned after %lld of %lld ns (%s)", call_name[call], (long long)took(), (long long)want, when);
        if(late) MC_CHECK(took() < want + SLACK, "%s took %lld instead of %lld ns (%s)", call_name[call], (long long)took(), (long long)want, when);
    }
};
const std::chrono::nanoseconds durs[] = {5ms, 0ns, -1ms, 500ns, 1us, 1500ns, 999ns, 2h};
} // namespace

// nothing arrives
SCENARIO(nothing_arrives, 0, 0, 0, 0)
{
    Session s;
    Timed t(mc::choose(n_calls, "call"), durs[mc::choose(8, "duration")]);
    auto secs = std::chrono::duration_cast<std::chrono::seconds>(t.d).count();
    if(!affordable(secs, [&](std::chrono::seconds d) { Timed(t.call, d).run(); })) return;
    t.run();
    t.on_time("nothing arrived");
    int st = t.status;
    if(is_wait(t.call)) MC_CHECK(st == st_timeout || t.d.count() <= 0, "%s without event reported status %d", call_name[t.call], st);
    if(is_cv(t.call) || is_fut(t.call)) MC_CHECK(st == st_timeout, "%s without event reported status %d", call_name[t.call], st);
}

// unrelated tasks are served meanwhile (future, cv, sleep keep waiting; total time unchanged)
static void unrelated(bool late)
{
    int c = mc::choose(n_calls, "call");
    if(is_wait(c)) return;
    Session s;
    Timed t(c, 5ms);
    auto me = tt::get_id();
    mc::Count ran;
    int n = 1 + mc::choose(2, "tasks");
    bool slow = mc::choose(2, "slow");
    {
        Explore e;
        Raw r([&] {
            for(int i = 0; i < n; ++i)
            {
                tpp::invoke(me, [&] { ran.add(); });
                if(slow) std::this_thread::sleep_for(1ms);
            }
        });
        t.run();
    }
    mc::explore(false);
    t.on_time("unrelated tasks served", late);
    if(!is_sleep(c)) MC_CHECK(t.status == st_timeout, "%s reported status %d although only unrelated tasks came", call_name[c], t.status.get());
    tt::process();
    MC_CHECK((int)ran == n, "tasks served");
}
SCENARIO(unrelated_tasks, 99, 99, 0, 0) { unrelated(true); }
SCENARIO(unrelated_tasks_early, 8, 9, 1, 0) { unrelated(false); }
// a task served during the wait outlasts the deadline: the wait ends when the task is done
SCENARIO(long_task_served, 0, 0, 0, 0)
{
    int c = mc::choose(n_calls, "call");
    int64_t len = mc::choose(2, "length") ? 2000000 : 7000000;
    bool blocked = mc::choose(2, "arrives while blocked");
    Session s;
    Timed t(c, 5ms);
    tid me = tt::get_id();
    auto work = [&] { mc::advance(len); };
    std::unique_ptr<Raw> r;
    if(blocked) r = std::make_unique<Raw>([&] { std::this_thread::sleep_for(1ms); tpp::invoke(me, work); });
    else tpp::invoke(me, work);
    t.run();
    int64_t done = len + (blocked ? 1000000 : 0);
    int64_t want = is_wait(c) ? done : std::max<int64_t>(5000000, done);
    MC_CHECK(t.took() > want - US && t.took() < want + SLACK, "%s took %lld instead of %lld ns with a long task inside", call_name[c], (long long)t.took(), (long long)want);
    if(is_wait(c)) MC_CHECK(t.status == st_no_timeout, "%s served a task and reported timeout", call_name[c]);
    else if(!is_sleep(c)) MC_CHECK(t.status == st_timeout, "%s reported status %d", call_name[c], t.status.get());
}
// the event comes during a task that outlasts the deadline
SCENARIO(event_during_long_task, 0, 0, 0, 0)
{
    int c = mc::choose(n_calls, "call");
    if(is_sleep(c)) return;
    int64_t before = mc::choose(2, "event") ? 2000000 : 6000000, after = mc::choose(2, "task ends") ? 1000000 : 6000000;
    bool blocked = mc::choose(2, "arrives while blocked");
    Session s;
    Timed t(c, 5ms);
    tid me = tt::get_id();
    auto work = [&] { mc::advance(before); t.fire(me); mc::advance(after); };
    std::unique_ptr<Raw> r;
    if(blocked) r = std::make_unique<Raw>([&] { std::this_thread::sleep_for(1ms); tpp::invoke(me, work); });
    else tpp::invoke(me, work);
    t.run();
    int64_t want = before + after + (blocked ? 1000000 : 0);
    MC_CHECK(t.took() > want - US && t.took() < want + SLACK, "%s took %lld instead of %lld ns with its event inside a long task", call_name[c], (long long)t.took(), (long long)want);
    if(is_wait(c)) MC_CHECK(t.status == st_no_timeout, "%s served a task and reported timeout", call_name[c]);
    else if(before < 5000000) MC_CHECK(t.status != st_timeout, "%s reported timeout although its event came in time", call_name[c]);
}

// the event comes at any moment, also racing with the expiry
static void racing(int c, std::chrono::nanoseconds d)
{
    Session s;
    Timed t(c, d);
    Gate start;
    mc::Var<int> fired{0};
    {
        mc::Var<tid> wid{0};
        Raw w([&] {
            tt::register_this_thread();
            wid = tt::get_id();
            start.pass();
            t.run();
            tt::unregister_this_thread();
        });
        mc::settle();
        auto id = wid.get();
        Explore e;
        start.open();
        t.fire(id);
        fired = 1;
        mc::settle();
    }
    int st = t.status;
    MC_CHECK(st != -1, "%s did not return", call_name[c]);
    mc_observe("%s:%d", call_name[c], st);
    if(st == st_timeout || st == st_none) t.on_time("expired");
    else
    {
        MC_CHECK(t.took() < d.count() + SLACK, "%s returned late", call_name[c]);
    }
    if(is_fut(c)) MC_CHECK(st == st_ready || st == st_timeout, "%s status %d", call_name[c], st);
    if(st == st_ready) MC_CHECK(t.event != 0, "ready before the result");
    if(is_fut(c) && t.event && t.end >= t.event && t.took() < d.count() - US) MC_CHECK(st == st_ready, "%s: result came first, status %d", call_name[c], st);
}
SCENARIO(event_against_expiry, 8, 9, 1, 1)
{
    int c = mc::choose(n_calls, "call");
    if(is_sleep(c)) return;
    racing(c, 5ms);
}
// the event arrives well before the deadline and nothing expires early: always the event is reported, at once
SCENARIO(event_first, 99, 99, 0, 1)
{
    int c = mc::choose(n_calls, "call");
    if(is_sleep(c)) return;
    Session s;
    Timed t(c, 5ms);
    auto me = tt::get_id();
    {
        Raw r([&] {
            std::this_thread::sleep_for(1ms); // the main thread is inside the call by then
            mc::explore(true);
            t.fire(me);
        });
        t.run();
        mc::explore(false);
    }
    MC_CHECK(t.took() > 900000 && t.took() < 1000000 + SLACK, "%s returned after %lld ns instead of with the event", call_name[c], (long long)t.took());
    MC_CHECK(t.status == (is_fut(c) ? st_ready : st_no_timeout), "%s reported status %d for an event in time", call_name[c], t.status.get());
}
// the result is there already: no time passes, zero and negative durations included
SCENARIO(event_before_call, 0, 0, 0, 0)
{
    int c = c_fut_for + mc::choose(n_calls - c_fut_for, "call");
    Session s;
    Timed t(c, durs[mc::choose(8, "duration")]);
    t.fire(tt::get_id());
    t.run();
    MC_CHECK(t.status == st_ready && t.took() < SLACK, "%s on a ready future reported %d after %lld ns", call_name[c], t.status.get(), (long long)t.took());
}
// sleeps are not shortened by tasks or notifications, but by an exit request
static void sleep_interrupted(bool early)
{
    int c = c_sleep_for + mc::choose(3, "call"), what = mc::choose(3, "event");
    Session s;
    Timed t(c, 5ms);
    Gate start;
    mc::Var<uint64_t> told{0};
    mc::Count ran;
    {
        mc::Var<tid> wid{0};
        Raw w([&] {
            tt::register_this_thread();
            wid = tt::get_id();
            start.pass();
            t.run();
            tt::unregister_this_thread();
        });
        mc::settle();
        auto id = wid.get();
        Explore e;
        start.open();
        if(what == 0) tpp::notify(id);
        if(what == 1) { tpp::invoke(id, [&] { ran.add(); }); tpp::invoke(id, [&] { ran.add(); }); }
        if(what == 2) { told = mc::now(); tpp::notify_for_exit(id); }
    }
    mc::explore(false);
    MC_CHECK(t.status == st_none, "returned");
    if(what != 2) t.on_time("interrupted", !early);
    else MC_CHECK(t.took() < 5000000 + SLACK, "late");
    if(what == 1) MC_CHECK((int)ran == 2 || (early && (int)ran < 2), "tasks served during the sleep: %d", (int)ran);
}
SCENARIO(sleep_not_shortened, 8, 99, 0, 1) { sleep_interrupted(false); }
SCENARIO(sleep_not_shortened_early, 8, 9, 1, 1) { sleep_interrupted(true); }
// wait_for reports that it served something even if it expires in the same moment
SCENARIO(wait_reports_served, 99, 99, 1, 0)
{
    int c = mc::choose(3, "call");
    Session s;
    Timed t(c, 5ms);
    mc::Count ran;
    mc::Var<int> sent{0};
    auto me = tt::get_id();
    {
        Explore e;
        Raw r([&] { tpp::invoke(me, [&] { ran.add(); }); });
        t.run();
        if(t.status == st_timeout) t.on_time("expired");
        else MC_CHECK((int)ran == 1, "%s reported no_timeout without anything received", call_name[c]);
        // asleep over the deadline with nothing received, then a task in the last moment: either report is fine,
        // but a task served before the deadline is not a timeout
        if((int)ran == 1 && t.took() < 4000000) MC_CHECK(t.status == st_no_timeout, "%s served a task in time and reported timeout", call_name[c]);
    }
    tt::process();
    MC_CHECK((int)ran == 1, "task ran %d times", (int)ran);
}
// process_for stops at its limit and serves everything if there is time
SCENARIO(process_for_limit, 0, 0, 0, 0)
{
    Session s;
    auto me = tt::get_id();
    int n = 1 + mc::choose(4, "tasks"), limit = mc::choose(5, "limit ms");
    mc::Count ran;
    for(int i = 0; i < n; ++i) tpp::invoke(me, [&] { ran.add(); mc::advance(1000000); });
    tt::process_for(std::chrono::milliseconds(limit));
    MC_CHECK((int)ran >= std::min(n, limit) - 1 && (int)ran <= std::min(n, limit), "process_for(%d ms) served %d of %d tasks of 1 ms", limit, (int)ran, n);
    tt::process_for(1h);
    MC_CHECK((int)ran == n, "process_for with time left did not serve all tasks");
}

// tasks served shortly before the deadline change nothing
SCENARIO(served_close_to_deadline, 0, 0, 0, 0)
{
    int c = mc::choose(n_calls, "call"), n = 1 + mc::choose(2, "tasks");
    static const int64_t before[] = {2, 5, 20, 60, 150, 400, 990, 1010, 1600, 2500, 4000, 4990}; // microseconds
    int64_t b = before[mc::choose(12, "before the deadline")];
    Session s;
    Timed t(c, 5ms);
    auto me = tt::get_id();
    mc::Count ran;
    {
        Raw r([&] {
            std::this_thread::sleep_for(std::chrono::microseconds(5000 - b));
            for(int i = 0; i < n; ++i) tpp::invoke(me, [&] { ran.add(); });
        });
        t.run();
        if(is_wait(c))
        {
            MC_CHECK(t.status == st_no_timeout && t.took() < (5000 - b) * US + SLACK, "%s status %d after %lld ns", call_name[c], t.status.get(), (long long)t.took());
            MC_CHECK((int)ran >= 1, "served");
        }
        else
        {
            t.on_time("task served shortly before the deadline");
            if(!is_sleep(c)) MC_CHECK(t.status == st_timeout, "%s reported %d", call_name[c], t.status.get());
        }
    }
    tt::process();
    MC_CHECK((int)ran == n, "tasks served");
}
// whatever the thread did before, a timed wait with nothing arriving takes its full time
static void history_step(int op, int level = 0)
{
    auto me = tt::get_id();
    switch(op)
    {
        case 0: tpp::invoke(me, [] {}); break;
        case 1: tpp::notify(me); break;
        case 2: tpp::invoke(me, [me] { tpp::invoke(me, [] {}); tt::process(); }); break;
        case 3: tt::process(); break;
        case 4: tt::wait_for(1ms); break;
        case 5: tt::sleep_for(1ms); break;
        case 6: { tpp::promise<int> p; auto f = p.get_future(); f.wait_for(1ms); break; }
        case 7: { std::mutex m; tpp::condition_variable cv; std::unique_lock<std::mutex> l(m); tpp::invoke(me, [&] { cv.notify_one(); }); cv.wait_for(l, 1ms); break; }
        case 8: { Raw r([me] { tpp::invoke(me, [] {}); tpp::invoke(me, [] {}); }); break; }
        case 9: tpp::invoke(me, [level] { if(level < 2) history_step(9, level + 1); else { tt::wait_for(1ms); } }); tt::wait_for(1ms); break;
        case 10: tpp::invoke(me, [] { throw Oops{1}; }); for(bool out = false; !out;) try { tt::process(); out = true; } catch(const Oops&) {} break;
        case 11: tpp::set_thread_config(me, {1, 0}); break;
    }
}
SCENARIO(after_any_history, 0, 0, 0, 0)
{
    int c = mc::choose(n_calls, "call");
    int n = mc_thorough() ? 4 : 3;
    Session s;
    Timed t(c, 5ms);
    for(int i = 0; i < n; ++i) history_step(mc::choose(12, "step"));
    tt::process();
    t.run();
    t.on_time("nothing arrived after some history");
    if(!is_sleep(c)) MC_CHECK(t.status == st_timeout, "%s without event reported status %d", call_name[c], t.status.get());
}
// told to exit before or during the call: neither an early timeout nor a result is reported
SCENARIO(exit_is_not_an_event, 99, 99, 0, 0)
{
    int c = mc::choose(n_calls, "call");
    Session s;
    Timed t(c, 1h);
    auto me = tt::get_id();
    {
        Explore e;
        Raw r([&] { tpp::notify_for_exit(me); });
        t.run();
    }
    MC_CHECK(t.took() < SLACK, "%s took %lld ns", call_name[c], (long long)t.took());
    MC_CHECK(t.status != st_timeout && t.status != st_ready, "%s interrupted by an exit request reported status %d", call_name[c], t.status.get());
}
// durations of any length and unit
namespace
{
template<typename D>
void in_unit(int call, D d, const char* unit)
{
    Session s;
    Timed t(c_wait_for, std::chrono::duration_cast<std::chrono::nanoseconds>(d));
    auto me = tt::get_id();
    mc::Count ran;
    int task = mc::choose(2, "a task in between");
    auto id = tpp::make_thread("sender");
    static const int calls[] = {c_wait_for, c_sleep_for, c_cv_for, c_fut_for, c_shared_for, c_void_for, c_shared_void_until};
    auto secs = std::chrono::duration_cast<std::chrono::seconds>(d).count();
    if(!affordable(secs, [&](std::chrono::seconds x) { Timed(c_sleep_for, x).run(); Timed(calls[call], x).run(); })) return;
    if(task) tpp::invoke(id.get_id(), [&] { tt::sleep_for(d / 2); tpp::invoke(me, [&] { ran.add(); }); });
    t.begin = mc::now();
    int r = st_none;
    switch(call)
    {
        case 0: r = Timed::code(tt::wait_for(d)); if(task) { MC_CHECK(r == st_no_timeout && (int)ran == 1, "wait_for(%s) did not end with the task", unit); return; } break;
        case 1: tt::sleep_for(d); break;
        case 2: { std::unique_lock<std::mutex> l(t.m); r = Timed::code(t.cv.wait_for(l, d)); break; }
        case 3: r = Timed::code(t.f.wait_for(d)); break;
        case 4: t.sf = t.f.share(); r = Timed::code(t.sf.wait_for(d)); break;
        case 5: r = Timed::code(t.fv.wait_for(d)); break;
        case 6: t.sfv = t.fv.share(); r = Timed::code(t.sfv.wait_for(d)); break;
    }
    t.end = mc::now();
    t.call = call == 0 ? c_wait_for : call == 1 ? c_sleep_for : call == 2 ? c_cv_for : call == 3 ? c_fut_for : call == 4 ? c_shared_for : c_void_for;
    t.on_time(unit);
    MC_CHECK((int)ran == task, "task during a wait of %s ran %d times", unit, (int)ran);
    if(call != 1) MC_CHECK(r == st_timeout, "%s(%s) reported status %d", call_name[t.call], unit, r);
}
} // namespace
SCENARIO(any_unit, 0, 0, 0, 0)
{
    using namespace std::chrono;
    int call = mc::choose(7, "call");
    switch(mc::choose(16, "duration"))
    {
        case 0: in_unit(call, microseconds(7), "7 us"); break;
        case 1: in_unit(call, milliseconds(1), "1 ms"); break;
        case 2: in_unit(call, milliseconds(999), "999 ms"); break;
        case 3: in_unit(call, seconds(2), "2 s"); break;
        case 4: in_unit(call, minutes(3), "3 min"); break;
        case 5: in_unit(call, hours(5), "5 h"); break;
        case 6: in_unit(call, hours(24 * 7), "a week"); break;
        case 7: in_unit(call, hours(24 * 100), "100 days"); break;
        case 8: in_unit(call, hours(24 * 365 * 3), "3 years"); break;
        case 9: in_unit(call, duration<int, std::ratio<86400>>(60), "60 days as int"); break;
        case 10: in_unit(call, duration<int16_t>(30000), "30000 s as 16 bit"); break;
        case 11: in_unit(call, duration<uint32_t, std::milli>(4000000000u), "4000000000 ms"); break;
        case 12: in_unit(call, nanoseconds(123456789), "123456789 ns"); break;
        case 13: in_unit(call, duration<int32_t, std::micro>(2000000000), "2000000000 us as int"); break;
        case 14: in_unit(call, milliseconds(65536), "65536 ms"); break;
        case 15: in_unit(call, seconds(70000), "70000 s"); break;
    }
}
