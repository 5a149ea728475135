#include "pool_common.h"
#include <functional>
// C30: the callbacks given at initialisation are called when and where they should be.

namespace
{
struct Calls
{
    struct One
    {
        int kind; // 0 named, 1 started
        std::string name;
        std::thread::id native;
        tid id;
        bool reg, tasks_before;
    };
    std::mutex m;
    std::vector<One> all;
    mc::Count errors, infos;
    std::vector<tid> ran; // threads that have run a task
    std::function<void()> in_start;

    void call(int kind, const std::string& name)
    {
        One o{kind, name, std::this_thread::get_id(), kind ? tt::get_id() : 0, tt::is_registered(), false};
        std::lock_guard<std::mutex> l(m);
        for(auto x : natives_ran) o.tasks_before |= x == o.native;
        all.push_back(o);
    }
    std::vector<std::thread::id> natives_ran;
    void task()
    {
        std::lock_guard<std::mutex> l(m);
        natives_ran.push_back(std::this_thread::get_id());
    }
    // index of the only call of this kind with this name, -1 if none
    int find(int kind, const std::string& name)
    {
        std::lock_guard<std::mutex> l(m);
        int r = -1;
        for(int i = 0; i < (int)all.size(); ++i)
            if(all[i].kind == kind && all[i].name == name)
            {
                MC_CHECK(r < 0, "start callback %d called twice for thread %s", kind, name.c_str());
                r = i;
            }
        return r;
    }
    int total()
    {
        std::lock_guard<std::mutex> l(m);
        return (int)all.size();
    }
    One at(int i)
    {
        std::lock_guard<std::mutex> l(m);
        return all[i];
    }
    tpp::init_data data(int which = 3)
    {
        tpp::init_data d;
        if(which & 1) d.set_thread_name = [this](const std::string& n) { call(0, n); };
        if(which & 2)
            d.on_thread_start = [this](const std::string& n) {
                call(1, n);
                if(in_start) in_start();
            };
        d.log_error = [this](const std::string&) { errors.add(); };
        d.log_info = [this](const std::string&) { infos.add(); };
        return d;
    }
    void expect(const std::string& name, std::thread::id native, tid id, int which = 3)
    {
        for(int k = 0; k < 2; ++k)
        {
            int i = find(k, name);
            if(!(which & (1 << k)))
            {
                MC_CHECK(i < 0, "callback called that was not given");
                continue;
            }
            MC_CHECK(i >= 0, "%s callback not called for thread %s", k ? "start" : "naming", name.c_str());
            One o = at(i);
            if(native != std::thread::id{}) MC_CHECK(o.native == native, "callback called on another thread than %s", name.c_str());
            if(k) MC_CHECK(o.reg && o.id == id, "thread %s is not registered in its start callback", name.c_str());
            MC_CHECK(!o.tasks_before, "thread %s ran a task before its callbacks", name.c_str());
        }
        if(which == 3) MC_CHECK(at(find(0, name)).native == at(find(1, name)).native, "callbacks of one thread on different threads");
    }
};
std::thread::id native(tpp::thread& t) { return static_cast<std::thread&>(t).get_id(); }
} // namespace

// a thread with and one without a name, a task sent at once
SCENARIO(made_threads, 99, 99, 0, 0)
{
    Calls c;
    int which = mc::choose(4, "callbacks");
    Session s(c.data(which));
    MC_CHECK(c.total() == 0, "callbacks called at initialisation");
    int how = mc::choose(3, "how");
    {
        Explore e;
        Probe p;
        tpp::shared_thread st;
        tpp::thread t;
        if(how == 1) st = tpp::make_shared_thread("A");
        else t = tpp::make_thread(how == 0 ? "A" : "");
        tpp::thread& x = st ? *st : t;
        auto n = native(x);
        MC_CHECK(tpp::invoke(x.get_id(), [&] { c.task(); p.hit(); }), "refused");
        mc::settle();
        p.expect("task", 1, x.get_id());
        if(how == 2) MC_CHECK(c.total() == 0, "callbacks called for a thread without name");
        else
        {
            c.expect("A", n, x.get_id(), which);
            MC_CHECK(c.total() == (which & 1) + (which >> 1), "%d callbacks called", c.total());
        }
    }
    MC_CHECK((int)c.errors == 0, "errors reported in a correct program");
}

SCENARIO(two_threads, 4, 5, 0, 0)
{
    Calls c;
    Session s(c.data());
    {
        Explore e;
        tpp::thread a = tpp::make_thread("A"), b = tpp::make_thread("B");
        auto na = native(a), nb = native(b);
        auto ia = a.get_id(), ib = b.get_id();
        tpp::invoke(ia, [&] { c.task(); });
        tpp::invoke(ib, [&] { c.task(); });
        int end = mc::choose(2, "end");
        if(end == 0) mc::settle();
        a.join();
        b.join();
        c.expect("A", na, ia);
        c.expect("B", nb, ib);
        MC_CHECK(c.total() == 4, "%d callbacks called", c.total());
    }
}

// threads that are not made by the library with a name
SCENARIO(other_threads, 0, 0, 0, 0)
{
    Calls c;
    Session s(c.data());
    int how = mc::choose(4, "how");
    {
        if(how == 0) Raw r([&] { tt::register_this_thread("R"); tt::process(); tt::unregister_this_thread(); });
        if(how == 1) { tpp::thread t([&] { tt::register_this_thread("R"); tt::process(); tt::unregister_this_thread(); }); }
        if(how == 2) { const std::string name("R"); tpp::thread t(name, [&] { tt::register_this_thread(); tt::process(); tt::unregister_this_thread(); }); }
        if(how == 3)
        {
            auto f = tpp::async([&] { return 1; });
            MC_CHECK(f.get() == 1, "value");
        }
    }
    MC_CHECK((int)c.errors == 0, "errors reported in a correct program");
    mc_observe("%d", c.total());
}

// every worker of a pool has a name of its own and is announced once
SCENARIO(pool_workers, 0, 0, 0, 0)
{
    Calls c;
    Session s(c.data());
    int w[3];
    int total = 0;
    std::map<tpp::priority::category, size_t> m;
    for(int l = 0; l < 3; ++l)
    {
        w[l] = mc::choose(3, "workers");
        total += w[l];
        if(w[l]) m[(tpp::priority::category)l] = (size_t)w[l];
    }
    std::vector<tid> workers;
    {
        tpp::thread_pool pool(m);
        for(auto id : tpp::get_all_registered_threads())
            if(id != tt::get_id()) workers.push_back(id);
        MC_CHECK((int)workers.size() == total, "workers");
        mc::settle();
    }
    MC_CHECK(c.total() == 2 * total, "%d callbacks called for %d workers", c.total(), total);
    std::vector<std::string> names;
    for(int i = 0; i < c.total(); ++i)
    {
        auto o = c.at(i);
        if(o.kind) names.push_back(o.name);
        MC_CHECK(!o.tasks_before && !o.name.empty(), "callback");
    }
    std::sort(names.begin(), names.end());
    MC_CHECK(std::unique(names.begin(), names.end()) == names.end(), "two workers with the same name");
    for(auto& n : names)
    {
        bool found = false;
        for(auto id : workers)
            if(c.at(c.find(1, n)).id == id) found = true;
        MC_CHECK(found, "start callback on something else than a worker");
        c.expect(n, {}, c.at(c.find(1, n)).id);
    }
    MC_CHECK((int)c.errors == 0, "errors reported in a correct program");
}

// the start callback may use the library
SCENARIO(start_uses_library, 8, 10, 0, 0)
{
    Calls c;
    Session s(c.data());
    int what = mc::choose(6, "what");
    tid me = tt::get_id();
    Probe p;
    mc::Var<int> got{0};
    tpp::thread extra;
    c.in_start = [&] {
        auto self = tt::get_id();
        switch(what)
        {
            case 0: tpp::invoke(self, [&] { p.hit(); }); break;
            case 1: tpp::invoke(me, [&] { p.hit(); }); break;
            case 2: got = tpp::async(me, [&] { p.hit(); return 5; }).get(); break;
            case 3: tpp::async(self, std::launch::deferred, [&] { p.hit(); }); break;
            case 4: tt::wait_for(1us); p.hit(); break;
            case 5: tpp::invoke(self, [&] { p.hit(); }); tt::process(); break;
        }
    };
    {
        Explore e;
        auto t = tpp::make_thread("A");
        tid id = t.get_id();
        if(what == 1 || what == 2)
            while(!(int)p.runs) tt::wait();
        else mc::settle();
        if(what == 4)
        {
            tt::sleep_for(2us);
            mc::settle();
        }
        mc::settle();
        p.expect("task of the start callback", 1, what == 1 || what == 2 ? me : id);
        if(what == 2) MC_CHECK(got == 5, "value");
        Probe q;
        tpp::invoke(id, [&] { q.hit(); });
        mc::settle();
        q.expect("later task", 1, id);
    }
}

// which set of callbacks is in force
SCENARIO(which_callbacks, 0, 0, 0, 0)
{
    Calls c[3];
    int n = mc::choose(3, "inits before");
    // complete earlier sessions leave nothing behind
    for(int i = 0; i < n; ++i)
    {
        Session s(c[0].data());
        auto t = tpp::make_thread("old");
    }
    int before = c[0].total(), infos = c[0].infos, errors = c[0].errors;
    MC_CHECK(before == 2 * n && c[0].errors == 0, "earlier sessions");
    int kind = mc::choose(3, "kind");
    if(kind == 2) // no callbacks at all
    {
        Session s;
        auto t = tpp::make_thread("A");
        tpp::invoke(tpp::invalid_id(), [] {});
    }
    else
    {
        Session s(c[1].data());
        if(kind == 1) tpp::init(c[2].data()); // inner initialisation changes nothing
        {
            auto t = tpp::make_thread("A");
            auto x = native(t);
            mc::settle();
            c[1].expect("A", x, t.get_id());
        }
        tpp::invoke(tpp::invalid_id(), [] {});
        MC_CHECK((int)c[1].errors > 0, "error not reported");
        if(kind == 1) MC_CHECK(tpp::shutdown() == -1, "inner shutdown");
        {
            auto t = tpp::make_thread("B");
            auto x = native(t);
            mc::settle();
            c[1].expect("B", x, t.get_id());
        }
        MC_CHECK(c[1].total() == 4, "callbacks called %d times", c[1].total());
    }
    MC_CHECK(c[0].total() == before && c[0].infos == infos && c[0].errors == errors, "callbacks of an earlier session called");
    MC_CHECK(c[2].total() == 0 && c[2].infos == 0 && c[2].errors == 0, "callbacks of an inner initialisation called");
}

// mistakes are reported, and do nothing else
SCENARIO(errors_reported, 0, 0, 0, 0)
{
    Calls c;
    Session s(c.data());
    int what = mc::choose(13, "what");
    auto reported = [&](const char* w, auto f) {
        int b = c.errors;
        f();
        MC_CHECK((int)c.errors > b, "%s: not reported", w);
    };
    mc::Count ran;
    auto task = [&] { ran.add(); };
    if(what == 0) reported("invoke to invalid", [&] { MC_CHECK(!tpp::invoke(tpp::invalid_id(), task), "accepted"); });
    else if(what == 1) reported("dispatch to invalid", [&] { MC_CHECK(!tpp::dispatch(tpp::invalid_id(), task), "accepted"); });
    else if(what == 2) reported("count of invalid", [&] { MC_CHECK(tpp::get_pending_task_count(tpp::invalid_id()) == 0, "count"); });
    else
        Raw r([&] {
            reported("call from an unregistered thread", [&] {
                switch(what)
                {
                    case 3: MC_CHECK(tt::get_id() == tpp::invalid_id(), "id"); break;
                    case 4: tt::process(); break;
                    case 5: tt::wait(); break;
                    case 6: tt::wait_for(1h); break;
                    case 7: tt::process_for(1h); break;
                    case 8: MC_CHECK(tt::notified_for_exit(), "exit"); break;
                    case 9: MC_CHECK(tt::get_depth() == 0, "depth"); break;
                    case 10: tt::sleep_for(1h); break;
                    case 11: tt::wait_until(std::chrono::steady_clock::now() + 1h); break;
                    case 12: tt::sleep_until(std::chrono::steady_clock::now() + 1h); break;
                }
            });
        });
    MC_CHECK((int)ran == 0, "task for the invalid thread was run");
    MC_CHECK(c.total() == 0, "other callbacks called");
}
