// Shared helpers of the scenarios. Only the public interface of the library is used.
#pragma once
#include "mc.h"
#include <system_error>
#include <threadpp/condition_variable.hpp>
#include <threadpp/future.hpp>
#include <threadpp/mutex.hpp>
#include <threadpp/thread.h>
#include <threadpp/thread_pool.h>
#include <threadpp/when_all_any.hpp>

#include <algorithm>
#include <chrono>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

using namespace std::chrono_literals;
namespace tt = tpp::this_thread;
using tid = tpp::thread::id;

// Every scenario: initialised library at the start, clean shutdown at the end.
struct Session
{
    explicit Session(const tpp::init_data& d = {}) { tpp::init(d); }
    ~Session()
    {
        mc::explore(false);
        mc::settle();
        int r = tpp::shutdown();
        MC_CHECK(r == 0, "shutdown at the end of the program returned %d", r);
    }
};

// exploring is on in this scope
struct Explore
{
    Explore() { mc::explore(true); }
    ~Explore() { mc::explore(false); }
};

// What happened to one task.
struct Probe
{
    mc::Count runs;
    mc::Var<tid> where{0};
    void hit()
    {
        runs.add();
        where = tt::get_id();
    }
    void expect(const char* what, int n, tid on)
    {
        MC_CHECK((int)runs == n, "%s ran %d times, expected %d", what, (int)runs, n);
        if(n > 0)
            MC_CHECK(where == on, "%s ran on thread %d, expected %d", what, (int)where.get(), (int)on);
    }
};

// Payload that counts its copies, moves and live instances.
struct Life
{
    mc::Count made, copied, moved, live;
};
struct Tracked
{
    Life* l;
    bool owner = true; // false once moved from
    explicit Tracked(Life& x) : l(&x)
    {
        l->made.add();
        l->live.add();
    }
    Tracked(const Tracked& o) : l(o.l), owner(o.owner)
    {
        l->copied.add();
        l->live.add();
    }
    Tracked(Tracked&& o) noexcept : l(o.l), owner(o.owner)
    {
        o.owner = false;
        l->moved.add();
        l->live.add();
    }
    Tracked& operator=(const Tracked&) = delete;
    Tracked& operator=(Tracked&&) = delete;
    ~Tracked() { l->live.add(-1); }
};

// trivially destructible exception
struct Oops
{
    int v;
};

// exceptions of many types: thrown by number, recognised by type and contents
struct Derived : std::runtime_error
{
    std::string more;
    Derived() : std::runtime_error("derived"), more("more") {}
};
struct Unrelated
{
    int a = 4;
    std::unique_ptr<int> b = std::make_unique<int>(5);
    Unrelated() = default;
    Unrelated(const Unrelated& o) : a(o.a), b(std::make_unique<int>(*o.b)) {}
};
constexpr int n_exceptions = 10;
inline void throw_number(int k)
{
    switch(k)
    {
        case 0: throw Oops{0};
        case 1: throw 17;
        case 2: throw Derived();
        case 3: throw Unrelated();
        case 4: throw std::future_error(std::future_errc::broken_promise);
        case 5: throw std::future_error(std::future_errc::promise_already_satisfied);
        case 6: throw std::system_error(std::make_error_code(std::errc::no_lock_available));
        case 7: throw std::bad_alloc();
        case 8: throw "text";
        default: throw std::make_exception_ptr(Oops{9}); // an exception_ptr as the exception itself
    }
}
template<typename F>
int thrown_number(F&& f) // -1: nothing thrown, -2: something else
{
    try
    {
        f();
        return -1;
    }
    catch(const Oops& e) { return e.v == 0 ? 0 : -2; }
    catch(int e) { return e == 17 ? 1 : -2; }
    catch(const Derived& e) { return e.what() == std::string("derived") && e.more == "more" ? 2 : -2; }
    catch(const Unrelated& e) { return e.a == 4 && *e.b == 5 ? 3 : -2; }
    catch(const std::future_error& e)
    {
        return e.code() == std::future_errc::broken_promise ? 4 : e.code() == std::future_errc::promise_already_satisfied ? 5 : -2;
    }
    catch(const std::system_error& e) { return e.code() == std::errc::no_lock_available ? 6 : -2; }
    catch(const std::bad_alloc&) { return 7; }
    catch(const char* e) { return e == std::string("text") ? 8 : -2; }
    catch(const std::exception_ptr& e)
    {
        try { std::rethrow_exception(e); }
        catch(const Oops& o) { return o.v == 9 ? 9 : -2; }
        catch(...) { return -2; }
    }
    catch(...) { return -2; }
}

inline bool listed(tid id)
{
    for(auto x : tpp::get_all_registered_threads())
        if(x == id)
            return true;
    return false;
}

// outcome of a get(): value, 1000+v for Oops{v}, -2 broken promise, -1 other future_error, -3 anything else
template<typename F>
int get_code(F&& f)
{
    try
    {
        return f();
    }
    catch(const Oops& o)
    {
        return 1000 + o.v;
    }
    catch(const std::future_error& e)
    {
        if(e.code() == std::future_errc::broken_promise)
            return -2;
        if(e.code() == std::future_errc::no_state)
            return -4;
        if(e.code() == std::future_errc::promise_already_satisfied)
            return -5;
        if(e.code() == std::future_errc::future_already_retrieved)
            return -6;
        return -1;
    }
    catch(...)
    {
        return -3;
    }
}

// a thread of the test program that the library knows nothing about
struct Raw
{
    std::thread t;
    template<typename F>
    explicit Raw(F&& f) : t(std::forward<F>(f))
    {
    }
    Raw(Raw&&) = default;
    ~Raw()
    {
        if(t.joinable())
            t.join();
    }
    void join() { t.join(); }
};

// runs the function from a destructor while an exception passes through
template<typename F>
void in_unwinding(F f)
{
    struct At
    {
        F& f;
        ~At() noexcept(false) { f(); }
    };
    try
    {
        At at{f};
        throw Oops{99};
    }
    catch(const Oops& o)
    {
        MC_CHECK(o.v == 99, "another exception");
    }
}
template<typename F>
void maybe_unwinding(bool unwinding, F f)
{
    if(unwinding) in_unwinding(f);
    else f();
}

// gate of the test program, no library involved
struct Gate
{
    std::mutex m;
    std::condition_variable c;
    bool open_ = false;
    void open()
    {
        std::lock_guard<std::mutex> l(m);
        open_ = true;
        c.notify_all();
    }
    void pass()
    {
        std::unique_lock<std::mutex> l(m);
        while(!open_)
            c.wait(l);
    }
};

// whether the implementation can be let wait that long: it may look at the clock again and again meanwhile
template<typename F>
bool affordable(int64_t seconds, F wait)
{
    mc::max_steps(3000000);
    unsigned last = 0;
    for(int64_t s = 1; s < seconds; s *= 8)
    {
        auto before = mc::steps();
        wait(std::chrono::seconds(s));
        auto cost = mc::steps() - before;
        if(s > 1 && cost > last + 10) return (cost - last) / (s - s / 8.0) * seconds < 1e6;
        last = cost;
    }
    return true;
}


// Every blocking call of the library, to be entered by one thread and released by another.
struct Blocking
{
    enum Kind
    {
        wait, wait_for, wait_until, sleep_for, sleep_until,
        cv_wait, cv_wait_for, cv_wait_until,
        fut_wait, fut_wait_for, fut_wait_until, fut_get, fut_void_get,
        shared_wait, shared_get, shared_void_get, shared_wait_for,
        simple_kinds,
        mutex_lock = simple_kinds, pool_wait, pool_wait_all,
        all_kinds
    };
    static constexpr auto nap = 2s;
    int kind;
    mc::Var<int> entered{0}, left{0}, code{0};
    mc::Var<bool> released{false};
    std::mutex m;
    bool flag = false;
    tpp::condition_variable cv;
    tpp::promise<int> p;
    tpp::promise<void> pv;
    tpp::future<int> f;
    tpp::future<void> fv;
    tpp::shared_future<int> sf;
    tpp::shared_future<void> sfv;
    tpp::mutex mx;
    Gate pool_gate;
    std::unique_ptr<tpp::thread_pool> pool;
    tpp::job_id job = 0;

    explicit Blocking(int k) : kind(k)
    {
        if(k == fut_void_get) fv = pv.get_future();
        else if(k == shared_void_get) sfv = pv.get_future().share();
        else if(k == shared_wait || k == shared_get || k == shared_wait_for) sf = p.get_future().share();
        else f = p.get_future();
        if(k == mutex_lock) mx.lock();
        if(k == pool_wait || k == pool_wait_all)
        {
            pool = std::make_unique<tpp::thread_pool>(
                std::map<tpp::priority::category, size_t>{{tpp::priority::category::normal, 1}});
            job = pool->schedule([this] { pool_gate.pass(); }).id;
        }
    }
    static bool is_sleep(int k) { return k == sleep_for || k == sleep_until; }
    static bool is_thread_wait(int k) { return k == wait || k == wait_for || k == wait_until; }
    static bool is_cv(int k) { return k == cv_wait || k == cv_wait_for || k == cv_wait_until; }

    // one library call (exit makes it return without its event)
    void call()
    {
        auto far = std::chrono::steady_clock::now() + 1h;
        switch(kind)
        {
            case wait: tt::wait(); break;
            case wait_for: code = (int)tt::wait_for(1h); break;
            case wait_until: code = (int)tt::wait_until(far); break;
            case sleep_for: tt::sleep_for(nap); break;
            case sleep_until: tt::sleep_until(std::chrono::steady_clock::now() + nap); break;
            case fut_wait: f.wait(); break;
            case fut_wait_for: code = (int)f.wait_for(1h); break;
            case fut_wait_until: code = (int)f.wait_until(far); break;
            case fut_get: code = get_code([&] { return f.get(); }); break;
            case fut_void_get: code = get_code([&] { fv.get(); return 7; }); break;
            case shared_wait: sf.wait(); break;
            case shared_wait_for: code = (int)sf.wait_for(1h); break;
            case shared_get: code = get_code([&] { return sf.get(); }); break;
            case shared_void_get: code = get_code([&] { sfv.get(); return 7; }); break;
            case mutex_lock: mx.lock(); mx.unlock(); break;
            case pool_wait: pool->wait(job); break;
            case pool_wait_all: pool->wait_all(); break;
            default:
            {
                std::unique_lock<std::mutex> l(m);
                if(kind == cv_wait) cv.wait(l);
                else if(kind == cv_wait_for) code = (int)cv.wait_for(l, 1h);
                else code = (int)cv.wait_until(l, far);
                MC_CHECK(l.owns_lock(), "lock held after condition variable wait");
            }
        }
    }
    // enter and stay until release(); the usual loop around the call where the call may return for other reasons
    void enter()
    {
        entered = 1;
        if(is_thread_wait(kind))
        {
            while(!released)
                call();
        }
        else if(is_cv(kind))
        {
            std::unique_lock<std::mutex> l(m);
            while(!flag)
            {
                auto far = std::chrono::steady_clock::now() + 1h;
                if(kind == cv_wait) cv.wait(l);
                else if(kind == cv_wait_for) cv.wait_for(l, 1h);
                else cv.wait_until(l, far);
                MC_CHECK(l.owns_lock(), "lock held after condition variable wait");
            }
        }
        else
            call();
        left = 1;
    }
    void release(tid waiter)
    {
        released = true;
        if(is_thread_wait(kind)) tpp::notify(waiter);
        else if(is_cv(kind))
        {
            {
                std::lock_guard<std::mutex> l(m);
                flag = true;
            }
            cv.notify_all();
        }
        else if(kind == fut_void_get || kind == shared_void_get) pv.set_value();
        else if(kind == mutex_lock) mx.unlock();
        else if(kind == pool_wait || kind == pool_wait_all) pool_gate.open();
        else if(!is_sleep(kind)) p.set_value(7);
    }
};

inline const char* kind_name(int k)
{
    static const char* n[] = {"wait", "wait_for", "wait_until", "sleep_for", "sleep_until", "cv.wait", "cv.wait_for", "cv.wait_until",
        "future.wait", "future.wait_for", "future.wait_until", "future.get", "future<void>.get", "shared.wait", "shared.get",
        "shared<void>.get", "shared.wait_for", "mutex.lock", "pool.wait", "pool.wait_all"};
    return n[k];
}
