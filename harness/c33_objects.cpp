#include "common.h"
// C33: thread objects: the function runs once with its arguments, and the object stays with its thread.

namespace
{
mc::Count plain_runs;
mc::Var<int> plain_sum{0};
void plain(int a, int b)
{
    plain_runs.add();
    plain_sum = a + b;
}
struct Worker
{
    mc::Count runs;
    mc::Var<int> got{0};
    void run(int a)
    {
        runs.add();
        got = a;
    }
};
struct Once // move-only callable with a move-only argument
{
    std::unique_ptr<mc::Count> own;
    mc::Count* runs;
    mc::Var<int>* got;
    void operator()(std::unique_ptr<int> a)
    {
        MC_CHECK(own != nullptr, "empty callable");
        runs->add();
        *got = *a;
    }
};
std::string name_of(tid id) { return tpp::get_pending_task_count_detailed(id).thread_name; }
void serve()
{
    while(!tt::notified_for_exit()) tt::wait();
}
} // namespace

// a function with arguments of all kinds, with and without a name
SCENARIO(functions, 99, 99, 0, 0)
{
    int kind = mc::choose(6, "function"), named = mc::choose(3, "named");
    Session s;
    Worker w;
    mc::Count runs;
    mc::Var<int> got{0};
    Life life;
    int var = 1;
    std::string text = "text";
    const std::string nm = named == 2 ? std::string(40, 'n') + " / thread" : "N";
    {
        Explore e;
        auto make = [&](auto&&... a) {
            if(named) return tpp::thread(nm, std::forward<decltype(a)>(a)...);
            return tpp::thread(std::forward<decltype(a)>(a)...);
        };
        tpp::thread t;
        MC_CHECK(!t.joinable() && t.get_id() == tpp::invalid_id(), "object without a thread");
        switch(kind)
        {
            case 0: t = make(&plain, 3, 4); break;
            case 1: t = make(&Worker::run, &w, 5); break;
            case 2: t = make(Once{std::make_unique<mc::Count>(), &runs, &got}, std::make_unique<int>(6)); break;
            case 3: t = make([&runs](int& x) { x = 7; runs.add(); }, std::ref(var)); break;
            case 4:
                t = make([&](std::string x) { got = x == "text" ? 8 : 0; runs.add(); }, text);
                MC_CHECK(text == "text", "argument of the caller changed");
                break;
            default:
            {
                Tracked x(life);
                t = make([&](const Tracked& y) { got = y.owner ? 9 : 0; runs.add(); }, x);
                MC_CHECK(x.owner, "argument of the caller was taken");
            }
        }
        auto id = t.get_id();
        MC_CHECK(id != tpp::invalid_id() && id != tt::get_id(), "id");
        MC_CHECK(listed(id), "not registered");
        MC_CHECK(name_of(id) == (named ? nm : std::to_string(id)), "name %s", name_of(id).c_str());
        t.join();
        MC_CHECK(!listed(id) && !t.joinable(), "registered after join");
    }
    int n = kind == 0 ? (int)plain_runs : kind == 1 ? (int)w.runs : (int)runs;
    MC_CHECK(n == 1, "function ran %d times", n);
    int value = kind == 0 ? plain_sum : kind == 1 ? w.got : kind == 3 ? var : got;
    static const int expected[] = {7, 5, 6, 7, 8, 9};
    MC_CHECK(value == expected[kind], "arguments arrived as %d", value);
    MC_CHECK((int)life.live == 0, "argument not destroyed");
}

// the function may register itself, in any way and at any moment, or not at all
SCENARIO(registers_itself, 99, 99, 0, 0)
{
    int how = mc::choose(5, "how"), named = mc::choose(2, "named");
    Session s;
    mc::Var<tid> inner{0};
    mc::Count ran;
    mc::Var<bool> unregistered{false};
    {
        Explore e;
        Gate g;
        auto f = [&] {
            if(how == 1 || how == 3) tt::register_this_thread();
            if(how == 2) tt::register_this_thread("inner");
            if(how >= 1 && how <= 3)
            {
                inner = tt::get_id();
                serve();
            }
            if(how == 3)
            {
                unregistered = true;
                tt::unregister_this_thread();
            }
            if(how == 4) g.pass();
        };
        const std::string given = "N";
        auto t = named ? tpp::thread(given, f) : tpp::thread(f);
        auto id = t.get_id();
        MC_CHECK(listed(id), "not registered");
        MC_CHECK(tpp::get_all_registered_threads().size() == 2, "one thread and two entries");
        bool accepted = tpp::invoke(id, [&] { MC_CHECK(tt::get_id() == id, "wrong thread"); ran.add(); });
        MC_CHECK(accepted, "refused");
        mc::settle();
        if(how >= 1 && how <= 3)
        {
            MC_CHECK(inner == id, "the thread knows itself as %d, its object as %d", (int)inner.get(), (int)id);
            MC_CHECK((int)ran == 1, "task ran %d times", (int)ran);
            MC_CHECK(listed(id), "not registered");
        }
        auto nm = name_of(id);
        if(named && how != 2) MC_CHECK(nm == "N", "name %s", nm.c_str());
        if(!named && how == 2) MC_CHECK(nm == "inner", "name %s", nm.c_str());
        if(named && how == 2) MC_CHECK(nm == "N" || nm == "inner", "name %s", nm.c_str());
        if(!named && how != 2) MC_CHECK(nm == std::to_string(id), "name %s", nm.c_str());
        g.open();
        t.join();
        MC_CHECK(!listed(id), "registered after join");
        MC_CHECK(tpp::get_all_registered_threads().size() == 1, "something else registered after join");
    }
    MC_CHECK((int)ran == (how >= 1 && how <= 3), "task ran %d times", (int)ran);
}

// sequences of operations on two or three objects against a reference: who owns which thread, who is alive
static void operations(int steps, bool explore)
{
    Session s;
    const int n = 3;
    tpp::thread o[n];
    struct Ref { tid id = 0; std::string name; int serial = 0; } ref[n];
    std::vector<tid> gone;
    mc::Count started, ended;
    int made = 0;
    mc::explore(explore);
    auto ends = [&](int i) { if(ref[i].serial) gone.push_back(ref[i].id); ref[i] = Ref(); };
    for(int k = 0; k < steps; ++k)
    {
        int op = mc::choose(7, "operation"), i = mc::choose(n, "object"), j = (i + 1 + mc::choose(n - 1, "other")) % n;
        switch(op)
        {
            case 0: // a new thread over whatever was there
            {
                ++made;
                const std::string nm = made % 2 ? "t" + std::to_string(made) : "";
                auto f = [&](int) { started.add(); tt::register_this_thread(); serve(); ended.add(); };
                o[i] = nm.empty() ? tpp::thread(f, made) : tpp::thread(nm, f, made);
                ends(i);
                ref[i] = {o[i].get_id(), nm, made};
                break;
            }
            case 1:
                o[i] = std::move(o[j]);
                ends(i);
                std::swap(ref[i], ref[j]);
                break;
            case 2: o[i].swap(o[j]); std::swap(ref[i], ref[j]); break;
            case 3:
                if(!ref[i].serial) continue;
                o[i].join();
                ends(i);
                break;
            case 4: o[i] = tpp::thread(); ends(i); break;
            case 5:
            {
                tpp::thread x(std::move(o[i]));
                MC_CHECK(!o[i].joinable(), "moved-from object owns a thread");
                if(ref[i].serial) MC_CHECK(x.get_id() == ref[i].id, "id after move");
                o[j] = std::move(x);
                ends(j);
                std::swap(ref[i], ref[j]);
                break;
            }
            default:
            {
                auto p = std::make_shared<tpp::thread>(std::move(o[i]));
                auto q = p;
                p.reset();
                if(ref[i].serial) MC_CHECK(listed(ref[i].id), "thread ended with another owner left");
                q.reset();
                ends(i);
            }
        }
        unsigned alive = 1;
        for(int a = 0; a < n; ++a)
        {
            MC_CHECK(o[a].joinable() == (ref[a].serial != 0), "object %d %s", a, o[a].joinable() ? "owns a thread" : "lost its thread");
            if(!ref[a].serial) continue;
            ++alive;
            MC_CHECK(o[a].get_id() == ref[a].id, "object %d has id %d instead of %d", a, (int)o[a].get_id(), (int)ref[a].id);
            MC_CHECK(listed(ref[a].id), "thread %d not registered", (int)ref[a].id);
            auto nm = name_of(ref[a].id);
            MC_CHECK(nm == (ref[a].name.empty() ? std::to_string(ref[a].id) : ref[a].name), "name %s", nm.c_str());
            mc::Var<tid> at{0};
            bool told = tpp::async(ref[a].id, [&] { at = tt::get_id(); return tt::notified_for_exit(); }).get();
            MC_CHECK(at == ref[a].id, "task ran elsewhere");
            MC_CHECK(!told, "told to exit for no reason");
        }
        for(auto g : gone) MC_CHECK(!listed(g), "thread %d still registered", (int)g);
        MC_CHECK(tpp::get_all_registered_threads().size() == alive, "%d threads registered instead of %d", (int)tpp::get_all_registered_threads().size(), (int)alive);
        MC_CHECK((int)ended == (int)gone.size(), "%d functions returned, %d threads ended", (int)ended, (int)gone.size());
    }
    mc::explore(false);
}
SCENARIO(object_operations, 0, 0, 0, 0) { operations(mc_thorough() ? 4 : 3, false); }
SCENARIO(object_operations_interleaved, 2, 3, 0, 0) { operations(2, true); }

// joining waits for the function, however long it takes and whatever it does
SCENARIO(waits_for_function, 99, 99, 0, 0)
{
    int how = mc::choose(4, "end"), work = mc::choose(4, "work");
    Session s;
    mc::Var<bool> returned{false}, asked{false};
    tpp::thread other([&] { tt::register_this_thread(); serve(); asked = true; tt::unregister_this_thread(); });
    auto oi = other.get_id();
    mc::settle();
    {
        Explore e;
        Gate g;
        auto t = std::make_unique<tpp::thread>([&] {
            if(work == 1) g.pass();
            if(work == 2) { tt::register_this_thread(); tt::sleep_for(1h); }
            if(work == 3) { tt::register_this_thread(); tpp::invoke(tt::get_id(), [&] { g.pass(); }); tt::process(); tt::unregister_this_thread(); }
            returned = true;
        });
        auto id = t->get_id();
        Raw r([&] { if(work == 1 || work == 3) std::this_thread::yield(); g.open(); });
        switch(how)
        {
            case 0: t->join(); break;
            case 1: t.reset(); break;
            case 2: *t = tpp::thread(); break;
            default: *t = std::move(other); break;
        }
        MC_CHECK(returned, "the function is still running");
        MC_CHECK(!listed(id), "still registered");
        MC_CHECK(!asked && listed(oi), "another thread was told to exit");
    }
}

// objects without a thread
SCENARIO(empty_objects, 0, 0, 0, 0)
{
    int in_session = mc::choose(2, "session");
    std::unique_ptr<Session> s;
    if(in_session) s = std::make_unique<Session>();
    tpp::thread a, b;
    a.swap(b);
    a = std::move(b);
    a = tpp::thread();
    tpp::thread c(std::move(a));
    MC_CHECK(!a.joinable() && !b.joinable() && !c.joinable(), "thread out of nothing");
    MC_CHECK(c.get_id() == tpp::invalid_id(), "id out of nothing");
    MC_CHECK(tpp::get_all_registered_threads().size() == (in_session ? 1u : 0u), "registered");
    std::vector<tpp::thread> v(3);
    v.emplace_back();
    v.erase(v.begin());
    v.resize(8);
}

// objects in containers
SCENARIO(containers, 0, 0, 0, 0)
{
    int n = 1 + mc::choose(6, "threads"), gone = mc::choose(n, "which");
    Session s;
    std::vector<tpp::thread> v;
    std::vector<tid> ids;
    mc::Count ended;
    for(int i = 0; i < n; ++i)
    {
        const std::string nm = "w" + std::to_string(i);
        v.emplace_back(nm, [&] { tt::register_this_thread(); serve(); ended.add(); });
        ids.push_back(v.back().get_id());
    }
    for(int i = 0; i < n; ++i) MC_CHECK(v[i].get_id() == ids[i] && listed(ids[i]), "growing lost a thread");
    v.erase(v.begin() + gone);
    MC_CHECK((int)ended == 1, "%d threads ended by removing one object", (int)ended);
    for(int i = 0, k = 0; i < n; ++i)
    {
        MC_CHECK(listed(ids[i]) == (i != gone), "wrong thread ended");
        if(i == gone) continue;
        MC_CHECK(v[k].get_id() == ids[i] && name_of(ids[i]) == "w" + std::to_string(i), "object and thread mixed up");
        ++k;
    }
    v.clear();
    MC_CHECK((int)ended == n, "%d of %d ended", (int)ended, n);
    MC_CHECK(tpp::get_all_registered_threads().size() == 1, "still registered");
}
