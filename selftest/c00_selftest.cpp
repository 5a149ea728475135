#include <ctime>
#include <iomanip>
#include <iostream>
#include <locale>
#include <random>
#include <shared_mutex>
#include <sstream>
#include <unordered_map>
// Scenarios for testing the model checker itself (see selftest/run).
#include <semaphore.h>
#include <future>
#include "../mc/mc.h"
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <memory>
#include <chrono>
using namespace std::chrono_literals;

SCENARIO(sb, 99, 99, 0, 0)
{
    std::atomic<int> x{0}, y{0};
    int a = 0, b = 0;
    mc::explore(true);
    std::thread t([&] { x = 1; a = y; });
    y = 1;
    b = x;
    t.join();
    mc::explore(false);
    mc_observe("%d%d", a, b);
}
SCENARIO(counters, 99, 99, 0, 0)
{
    std::atomic<int> x{0};
    mc::explore(true);
    std::thread t([&] { for(int i = 0; i < 2; ++i) { int v = x; x = v + 1; } });
    std::thread u([&] { for(int i = 0; i < 2; ++i) { int v = x; x = v + 1; } });
    t.join();
    u.join();
    mc::explore(false);
    mc_observe("%d", x.load());
}
SCENARIO(locks, 99, 99, 0, 0)
{
    std::mutex m, n;
    int log[6], k = 0;
    mc::explore(true);
    std::thread t([&] { for(int i = 0; i < 3; ++i) { std::lock_guard<std::mutex> l(m); log[k++] = i; } });
    for(int i = 3; i < 6; ++i) { std::lock_guard<std::mutex> l(m); log[k++] = i; }
    t.join();
    mc::explore(false);
    for(int i : log) mc_observe("%d", i);
}
SCENARIO(condvars, 3, 99, 1, 1)
{
    std::mutex m;
    std::condition_variable c;
    int stage = 0, seen = 0;
    mc::explore(true);
    std::thread t([&] {
        std::unique_lock<std::mutex> l(m);
        auto r = c.wait_for(l, 1ms);
        seen = stage * 10 + (r == std::cv_status::timeout);
    });
    { std::lock_guard<std::mutex> l(m); stage = 1; }
    c.notify_one();
    { std::lock_guard<std::mutex> l(m); stage = 2; }
    c.notify_all();
    t.join();
    mc::explore(false);
    mc_observe("%d", seen);
}
SCENARIO(refs, 99, 99, 0, 0)
{
    struct D { std::atomic<int>* w; int by; ~D() { *w = mc::self(); } };
    std::atomic<int> who{-1};
    auto p = std::make_shared<D>();
    p->w = &who;
    std::weak_ptr<D> w = p;
    int got = 0;
    mc::explore(true);
    std::thread t([&, q = p]() mutable { q.reset(); });
    std::thread u([&] { got = w.lock() ? 1 : 0; });
    p.reset();
    t.join();
    u.join();
    mc::explore(false);
    mc_observe("%d/%d", who.load(), got);
}
SCENARIO(bad_deadlock, 2, 2, 0, 0)
{
    std::mutex a, b;
    mc::explore(true);
    std::thread t([&] { std::lock_guard<std::mutex> x(a); std::lock_guard<std::mutex> y(b); });
    { std::lock_guard<std::mutex> x(b); std::lock_guard<std::mutex> y(a); }
    t.join();
}
SCENARIO(bad_race, 2, 2, 0, 0)
{
    int v = 0;
    std::atomic<int> f{0};
    mc::explore(true);
    std::thread t([&] { v = 1; f.store(1, std::memory_order_relaxed); });
    if(f.load(std::memory_order_relaxed)) v = 2;
    t.join();
}
SCENARIO(good_release, 99, 99, 0, 0)
{
    int v = 0;
    std::atomic<int> f{0};
    mc::explore(true);
    std::thread t([&] { v = 1; f.store(1, std::memory_order_release); });
    if(f.load(std::memory_order_acquire)) v = 2;
    t.join();
    mc_observe("%d", v);
}
SCENARIO(bad_lost_wakeup, 2, 2, 0, 0)
{
    std::mutex m;
    std::condition_variable c;
    std::atomic<bool> ready{false};
    mc::explore(true);
    std::thread t([&] { std::unique_lock<std::mutex> l(m); if(!ready) c.wait(l); });
    ready = true;
    c.notify_all();
    t.join();
}
SCENARIO(bad_uaf, 2, 2, 0, 0)
{
    std::mutex m;
    int* p = new int(1);
    int r = 0;
    mc::explore(true);
    std::thread t([&] { std::lock_guard<std::mutex> l(m); r = *p; });
    { std::lock_guard<std::mutex> l(m); delete p; }
    t.join();
    mc_observe("%d", r);
}
SCENARIO(bad_throw, 0, 0, 0, 0)
{
    std::thread t([] { throw 1; });
    t.join();
}
SCENARIO(bad_null, 0, 0, 0, 0)
{
    volatile int* p = nullptr;
    *p = 1;
}
SCENARIO(bad_spin, 0, 0, 0, 0)
{
    volatile bool stop = false;
    while(!stop) {}
}
SCENARIO(spin_ok, 1, 1, 0, 0)
{
    std::atomic<bool> go{false};
    mc::explore(true);
    std::thread t([&] { while(!go) {} });
    go = true;
    t.join();
}
SCENARIO(bad_livelock, 0, 0, 0, 0)
{
    std::atomic<bool> go{false};
    std::thread t([&] { while(!go) {} });
    t.join();
}
// facilities of the standard library the code under test might be built on
SCENARIO(std_futures, 2, 2, 0, 0)
{
    int data = 0, got = 0;
    mc::explore(true);
    {
        std::promise<int> p;
        auto f = p.get_future();
        std::thread t([&] { data = 5; p.set_value(1); });
        got = f.get() + data;
        t.join();
    }
    auto a = std::async(std::launch::async, [&] { return got + 1; });
    got = a.get();
    std::promise<void> q;
    auto v = q.get_future();
    if(v.wait_for(1ms) == std::future_status::timeout) got += 10;
    mc::explore(false);
    mc_observe("%d", got);
}
SCENARIO(bad_std_future, 0, 0, 0, 0)
{
    std::promise<int> p;
    p.get_future().get();
}
SCENARIO(posix_semaphores, 99, 99, 1, 0)
{
    sem_t s;
    sem_init(&s, 0, 0);
    int data = 0, r = 0;
    mc::explore(true);
    std::thread t([&] { data = 3; sem_post(&s); });
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    ts.tv_sec += 1;
    if(sem_timedwait(&s, &ts) == 0) r = data;
    t.join();
    mc::explore(false);
    mc_observe("%d", r);
}

// parts of the standard library with state of their own must survive the reset between executions
namespace
{
struct Big
{
    std::vector<int> v;
    Big() : v(100, 1) {}
    ~Big() { v.clear(); }
};
template<int N>
int lazy()
{
    static Big b;
    static std::string text = "some text that does not fit into the object " + std::to_string(N);
    return (int)b.v.size() + (int)text.size();
}
template<int... N>
int lazies(std::integer_sequence<int, N...>) { int n = 0; (void)std::initializer_list<int>{n += lazy<N>()...}; return n; }
} // namespace
SCENARIO(local_statics, 2, 2, 0, 0)
{
    mc::explore(true);
    std::thread t([] { lazies(std::make_integer_sequence<int, 40>()); });
    lazies(std::make_integer_sequence<int, 40>());
    t.join();
}
SCENARIO(streams, 2, 2, 0, 0)
{
    mc::explore(true);
    auto f = [](int k) {
        std::ostringstream s;
        s << std::fixed << std::setprecision(3) << k * 1.5 << ' ' << std::hex << k << ' ' << std::this_thread::get_id();
        std::istringstream in(s.str());
        double d;
        in >> d;
        if(d != k * 1.5) mc_fail("stream");
        char buf[100];
        snprintf(buf, sizeof buf, "%f %s", d, s.str().c_str());
        printf("printed %d\n", k);
        fprintf(stderr, "%s\n", "printed");
        std::cout << "printed" << std::endl;
        std::cerr << "printed\n";
        std::clog << "printed" << std::flush;
        std::time_t now = std::time(nullptr);
        std::tm tm{};
        localtime_r(&now, &tm);
        strftime(buf, sizeof buf, "%c", &tm);
        s << std::put_time(&tm, "%c");
        std::error_code(5, std::generic_category()).message();
        std::unordered_map<std::string, std::function<void()>> m;
        m["x"] = [] {};
        m["x"]();
        std::random_device rd;
        (void)rd;
        std::locale loc;
        std::toupper('c', loc);
    };
    std::thread t([&] { f(1); });
    f(2);
    t.join();
}
SCENARIO(lock_kinds, 2, 2, 0, 0)
{
    static std::once_flag once;
    static int inits = 0;
    std::recursive_mutex r;
    std::timed_mutex tm;
    std::recursive_timed_mutex rt;
    std::shared_timed_mutex st;
    std::shared_mutex sm;
    std::condition_variable_any cva;
    std::shared_ptr<int> sp = std::make_shared<int>(1);
    int x = 0;
    bool go = false;
    mc::explore(true);
    auto f = [&](int k) {
        std::call_once(once, [] { ++inits; });
        { std::lock_guard<std::recursive_mutex> a(r), b(r); ++x; }
        { std::unique_lock<std::timed_mutex> l(tm, std::defer_lock); if(!l.try_lock_for(std::chrono::hours(1))) mc_fail("timed"); }
        { std::lock_guard<std::recursive_timed_mutex> a(rt), b(rt); }
        { std::shared_lock<std::shared_timed_mutex> l(st); }
        { std::lock_guard<std::shared_mutex> l(sm); }
        { std::shared_lock<std::shared_mutex> l(sm); }
        { std::scoped_lock l(r, tm, sm); go = true; cva.notify_all(); }
        { std::unique_lock<std::shared_mutex> l(sm); cva.wait(l, [&] { return go; }); }
        auto y = std::atomic_load(&sp);
        std::atomic_store(&sp, std::make_shared<int>(*y + 1));
        thread_local std::vector<int> mine(10, k);
        if(mine[5] != k) mc_fail("thread_local");
    };
    std::thread t([&] { f(1); });
    f(2);
    t.join();
    if(x != 2 || inits != 1) mc_fail("x %d inits %d", x, inits);
    int s = *sp;
    mc_observe("%d", s);
}
// the standard library makes its locks for this on first use
SCENARIO(shared_globals, 3, 3, 0, 0)
{
    static std::shared_ptr<const int> sp = std::make_shared<const int>(1);
    std::thread t([&] { std::atomic_store(&sp, std::make_shared<const int>(*std::atomic_load(&sp) + 1)); });
    mc::explore(true);
    std::atomic_store(&sp, std::make_shared<const int>(*std::atomic_load(&sp) + 2));
    t.join();
    int s = *sp;
    mc_observe("%d", s);
}
SCENARIO(std_async, 1, 1, 0, 0)
{
    mc::explore(true);
    auto f = std::async(std::launch::async, [] { return 1; });
    auto d = std::async(std::launch::deferred, [] { return 2; });
    std::packaged_task<int()> p([] { return 3; });
    auto g = p.get_future();
    std::thread t(std::move(p));
    if(f.get() + d.get() + g.get() != 6) mc_fail("sum");
    t.join();
}
