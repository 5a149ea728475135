#include "crowd.h"
#include "pool_common.h"
// C30 with many threads.

SCENARIO(crowd, 0, 0, 0, 0)
{
    const int n = crowd_size;
    int kind = mc::choose(3, "kind");
    std::mutex m;
    std::vector<std::pair<std::string, tid>> named, started;
    mc::Count errors;
    tpp::init_data d;
    d.set_thread_name = [&](const std::string& x) { std::lock_guard<std::mutex> l(m); named.emplace_back(x, 0); };
    d.on_thread_start = [&](const std::string& x) { std::lock_guard<std::mutex> l(m); started.emplace_back(x, tt::get_id()); };
    d.log_error = [&](const std::string&) { errors.add(); };
    Session s(d);
    std::vector<tpp::thread> t;
    std::vector<tpp::shared_thread> st;
    std::unique_ptr<tpp::thread_pool> p;
    for(int i = 0; i < n; ++i)
    {
        auto name = "some rather long name of a thread, number " + std::to_string(i);
        if(kind == 0) t.push_back(tpp::make_thread(name));
        if(kind == 1) st.push_back(tpp::make_shared_thread(name));
    }
    if(kind == 2) p = std::make_unique<tpp::thread_pool>(levels{{level::normal, 8}, {level::high, 8}, {level::critical, 8}});
    mc::settle();
    {
        std::lock_guard<std::mutex> l(m);
        MC_CHECK((int)named.size() == n && (int)started.size() == n, "%d threads named, %d started, expected %d", (int)named.size(), (int)started.size(), n);
        for(int i = 0; i < n; ++i)
        {
            int a = 0, b = 0;
            std::string name = kind < 2 ? "some rather long name of a thread, number " + std::to_string(i) : started[i].first;
            tid id = kind == 0 ? t[i].get_id() : kind == 1 ? st[i]->get_id() : started[i].second;
            for(auto& x : named) a += x.first == name;
            for(auto& x : started) b += x.first == name && x.second == id;
            MC_CHECK(a == 1 && b == 1, "thread %d: named %d times, started %d times", i, a, b);
            MC_CHECK(listed(id) && tpp::get_pending_task_count_detailed(id).thread_name == name, "name of thread %d", i);
        }
    }
    MC_CHECK((int)errors == 0, "errors logged in correct use");
    t.clear();
    st.clear();
    p.reset();
}
