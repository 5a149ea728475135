#include "when_common.h"
// C29: visiting an element by its runtime index.

namespace
{
struct Seen
{
    int calls = 0;
    const void* at = nullptr;
    int type = 0, value = 0;
    void note(const void* p, int t, int v)
    {
        ++calls;
        at = p;
        type = t;
        value = v;
    }
};
struct Only
{
    int v;
    explicit Only(int x) : v(x) {}
    Only(const Only&) = delete;
    Only& operator=(const Only&) = delete;
};
int type_of(const int&) { return 1; }
int type_of(const std::string&) { return 2; }
int type_of(const std::unique_ptr<int>&) { return 3; }
int type_of(const Only&) { return 4; }
int value_of(const int& x) { return x; }
int value_of(const std::string& x) { return std::stoi(x); }
int value_of(const std::unique_ptr<int>& x) { return *x; }
int value_of(const Only& x) { return x.v; }

struct Visitor
{
    Seen& s;
    template<typename T>
    void operator()(T&& x) const
    {
        s.note(&x, type_of(x), value_of(x));
    }
};
// keeps its state in itself: must be used in place when given as an lvalue
struct Counting
{
    Seen s;
    template<typename T>
    void operator()(T&& x)
    {
        s.note(&x, type_of(x), value_of(x));
    }
    Counting() = default;
    Counting(const Counting&) = delete;
};
struct Throwing
{
    Seen& s;
    template<typename T>
    void operator()(T&& x) const
    {
        s.note(&x, type_of(x), value_of(x));
        throw Oops{value_of(x)};
    }
};

template<typename Tuple, size_t... I>
void run(Tuple& t, std::vector<int> values, std::vector<int> types, std::index_sequence<I...>)
{
    const int n = (int)sizeof...(I);
    std::vector<const void*> where{(const void*)&std::get<I>(t)...};
    int i = mc::choose(n + 9, "index");
    const size_t far[] = {size_t(-1), size_t(-1) - (size_t)n, 256, 65536, size_t(1) << 32, size_t(1) << 31, size_t(1) << 63};
    size_t idx = i < n + 2 ? (size_t)i : far[i - n - 2];
    int how = mc::choose(7, "how");
    Seen s;
    Counting c;
    Visitor lv{s};
    const Visitor clv{s};
    int code = 0;
    const Tuple& ct = t;
    try
    {
        switch(how)
        {
            case 0: tpp::visit_at(t, idx, Visitor{s}); break;
            case 1: tpp::visit_at(t, idx, lv); break;
            case 2: tpp::visit_at(ct, idx, clv); break;
            case 3: tpp::visit_at(std::move(t), idx, lv); break;
            case 4: tpp::visit_at(t, idx, c); s = c.s; break;
            case 5: tpp::visit_at(t, idx, Throwing{s}); break;
            case 6: tpp::visit_at(ct, idx, [&](const auto& x) { s.note(&x, type_of(x), value_of(x)); }); break;
        }
    }
    catch(const Oops& o) { code = 1000 + o.v; }
    catch(const std::runtime_error&) { code = 1; }
    if(how == 4) s = c.s;
    if(idx < (size_t)n)
    {
        MC_CHECK(s.calls == 1, "function called %d times for index %d of %d", s.calls, (int)idx, n);
        MC_CHECK(s.value == values[idx] && s.type == types[idx], "index %d of %d: function got the element with value %d, type %d", (int)idx, n, s.value, s.type);
        MC_CHECK(s.at == where[idx], "function got a copy of the element");
        MC_CHECK(code == (how == 5 ? 1000 + values[idx] : 0), "outcome of the visit is %d", code);
    }
    else
    {
        MC_CHECK(s.calls == 0, "function called for a bad index");
        MC_CHECK(code == 1, "bad index: outcome is %d, expected a runtime_error", code);
    }
}
template<typename... T>
void go(std::tuple<T...>& t, std::vector<int> values)
{
    std::vector<int> types;
    std::apply([&](auto&... x) { (types.push_back(type_of(x)), ...); }, t);
    run(t, values, types, std::index_sequence_for<T...>{});
}
} // namespace
SCENARIO(elements, 0, 0, 0, 0)
{
    using P = std::unique_ptr<int>;
    switch(mc::choose(7, "tuple"))
    {
        case 0: { std::tuple<> t; run(t, {}, {}, std::index_sequence<>{}); break; }
        case 1: { std::tuple<int> t(1); go(t, {1}); break; }
        case 2: { std::tuple<std::string, int> t("1", 2); go(t, {1, 2}); break; }
        case 3: { std::tuple<int, int, int> t(1, 2, 3); go(t, {1, 2, 3}); break; }
        case 4: { std::tuple<int, P, Only, std::string> t(1, P(new int(2)), 3, "4"); go(t, {1, 2, 3, 4}); break; }
        case 5:
        {
            std::tuple<int, int, int, int, std::string, int, int, std::string> t(1, 2, 3, 4, "5", 6, 7, "8");
            go(t, {1, 2, 3, 4, 5, 6, 7, 8});
            break;
        }
        case 6:
        {
            std::tuple<int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int>
                t(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20);
            go(t, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20});
            break;
        }
    }
}

// changes made by the function are made to the element itself
SCENARIO(changes, 0, 0, 0, 0)
{
    std::tuple<int, int, int> t(1, 2, 3);
    int model[3] = {1, 2, 3};
    for(int k = 0; k < 4; ++k)
    {
        int i = mc::choose(4, "index"), by = 10 << k;
        bool bad = false;
        try { tpp::visit_at(t, (size_t)i, [&](int& x) { x += by; }); }
        catch(const std::runtime_error&) { bad = true; }
        MC_CHECK(bad == (i == 3), "index %d of 3: error %d", i, (int)bad);
        if(i < 3) model[i] += by;
        MC_CHECK(std::get<0>(t) == model[0] && std::get<1>(t) == model[1] && std::get<2>(t) == model[2], "another element was changed");
    }
}

// a visit inside a visit
SCENARIO(nested, 0, 0, 0, 0)
{
    std::tuple<int, std::tuple<int, int>, int> t(1, std::tuple<int, int>(20, 21), 3);
    int i = mc::choose(4, "outer"), j = mc::choose(3, "inner");
    int got = 0, code = 0;
    struct F
    {
        int& got;
        int j;
        void operator()(int& x) const { got += x; }
        void operator()(std::tuple<int, int>& x) const { tpp::visit_at(x, (size_t)j, *this); }
    };
    try { tpp::visit_at(t, (size_t)i, F{got, j}); }
    catch(const std::runtime_error&) { code = 1; }
    int expect = i == 0 ? 1 : i == 2 ? 3 : i == 1 && j < 2 ? 20 + j : 0;
    MC_CHECK(got == expect, "visited %d, expected %d", got, expect);
    MC_CHECK(code == (expect == 0), "error %d", code);
}

// the usual way to get at the ready one of several results
static void of_any(bool both)
{
    Session s;
    tpp::promise<int> a;
    tpp::promise<std::string> b;
    tpp::promise<void> c;
    auto f = tpp::when_any(a.get_future(), b.get_future(), c.get_future());
    int first = mc::choose(3, "first");
    bool err = mc::choose(2, "error");
    auto set = [&](int i) {
        if(err)
        {
            auto e = std::make_exception_ptr(Oops{i});
            if(i == 0) a.set_exception(e);
            if(i == 1) b.set_exception(e);
            if(i == 2) c.set_exception(e);
        }
        else
        {
            if(i == 0) a.set_value(10);
            if(i == 1) b.set_value("11");
            if(i == 2) c.set_value();
        }
    };
    struct Get
    {
        int& code;
        void operator()(tpp::future<int>& x) const { code = get_code([&] { return x.get(); }); }
        void operator()(tpp::future<std::string>& x) const { code = get_code([&] { return std::stoi(x.get()); }); }
        void operator()(tpp::future<void>& x) const { code = get_code([&] { x.get(); return 12; }); }
    };
    {
        Explore e;
        Raw r([&] { set(first); });
        std::unique_ptr<Raw> r2;
        if(both) r2 = std::make_unique<Raw>([&] { set((first + 1) % 3); });
        auto res = f.get();
        MC_CHECK(res.index < 3, "index %d", (int)res.index);
        bool ready = false;
        tpp::visit_at(res.futures, res.index, [&](auto& x) { ready = x.valid() && x.is_ready(); });
        MC_CHECK(ready, "the element at the index is not ready");
        int code = 0;
        tpp::visit_at(res.futures, res.index, Get{code});
        int expect = (int)res.index + (err ? 1000 : 10);
        MC_CHECK(code == expect, "result %d, expected %d", code, expect);
        mc_observe("%d", (int)res.index);
    }
}
SCENARIO(of_any_one, 99, 99, 0, 0) { of_any(false); }
SCENARIO(of_any_two, 99, 99, 0, 0) { of_any(true); }
