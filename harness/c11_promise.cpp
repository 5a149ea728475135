#include "common.h"
// C11: a future yields exactly what its promise stored, once and for all.

namespace
{
template<typename T> struct Val;
template<> struct Val<int>
{
    static int make(int v) { return v; }
    static int read(int v) { return v; }
};
template<> struct Val<std::unique_ptr<int>>
{
    static std::unique_ptr<int> make(int v) { return std::make_unique<int>(v); }
    static int read(const std::unique_ptr<int>& v) { return v ? *v : -77; }
};
template<> struct Val<std::string>
{
    static std::string make(int v) { return std::string(40, 'a' + v % 20); }
    static int read(const std::string& v) { return v.size() == 40 ? (v[0] - 'a') : -77; }
};
template<typename T, typename P>
void put(P& p, int v)
{
    if constexpr(std::is_void<T>::value) p.set_value();
    else p.set_value(Val<T>::make(v));
}
template<typename T, typename F>
int take(F& f)
{
    if constexpr(std::is_void<T>::value) { f.get(); return 0; }
    else return Val<T>::read(f.get());
}

// reference state machine
template<typename T>
void sequence(int len)
{
    Session s;
    tpp::promise<T> p;
    tpp::future<T> f;
    tpp::shared_future<T> s1, s2;
    // reference
    bool p_state = true, retrieved = false, f_ok = false, s1_ok = false, s2_ok = false;
    int result = -100; // -100: none
    auto want = [&](int code, int got, const char* what) { MC_CHECK(got == code, "%s gave %d, expected %d", what, got, code); };
    const int ok = 1;
    for(int i = 0; i < len; ++i)
    {
        int op = mc::choose(13, "op");
        switch(op)
        {
            case 0: case 1:
            {
                int v = std::is_void<T>::value ? 0 : 3 + op + i;
                int e = !p_state ? -4 : result != -100 ? -5 : ok;
                want(e, get_code([&] { put<T>(p, v); return ok; }), "set_value");
                if(e == ok) result = v;
                break;
            }
            case 2:
            {
                int e = !p_state ? -4 : result != -100 ? -5 : ok;
                want(e, get_code([&] { p.set_exception(std::make_exception_ptr(Oops{i})); return ok; }), "set_exception");
                if(e == ok) result = 1000 + i;
                break;
            }
            case 3:
            {
                int e = !p_state ? -4 : retrieved ? -6 : ok;
                want(e, get_code([&] { f = p.get_future(); return ok; }), "get_future");
                if(e == ok) { retrieved = true; f_ok = true; }
                break;
            }
            case 4: // get, without blocking for ever
                if(f_ok && result == -100) break;
                want(f_ok ? result : -4, get_code([&] { return take<T>(f); }), "future.get");
                f_ok = false;
                break;
            case 5:
                s1 = f.share();
                s1_ok = f_ok;
                f_ok = false;
                break;
            case 6: s2 = s1; s2_ok = s1_ok; break;
            case 7:
                if(s1_ok && result == -100) break;
                want(s1_ok ? result : -4, get_code([&] { return take<T>(s1); }), "shared_future.get");
                break;
            case 8:
                if(s2_ok && result == -100) break;
                want(s2_ok ? result : -4, get_code([&] { return take<T>(s2); }), "shared_future.get of a copy");
                break;
            case 9: // move the promise away and back
            {
                tpp::promise<T> q(std::move(p));
                want(-4, get_code([&] { put<T>(p, 9); return ok; }), "set_value on a moved-from promise");
                want(-4, get_code([&] { p.get_future(); return ok; }), "get_future on a moved-from promise");
                p = std::move(q);
                break;
            }
            case 10: // the producer goes away
            {
                { tpp::promise<T> q(std::move(p)); }
                if(p_state && result == -100) result = -2;
                p_state = false;
                break;
            }
            case 11: // a second producer takes its place
                if(p_state && result == -100) break;
                p = tpp::promise<T>();
                if(s1_ok || s2_ok || f_ok) { i = len; break; } // futures of the old state: checked below
                p_state = true; retrieved = false; result = -100;
                break;
            case 12:
            {
                tpp::future<T> g(std::move(f));
                MC_CHECK(!f.valid() && g.valid() == f_ok, "moved future");
                f = std::move(g);
                break;
            }
        }
        auto inspect = [&](auto& x, bool valid, const char* n) {
            MC_CHECK(x.valid() == valid, "%s.valid() is %d", n, (int)x.valid());
            int r = get_code([&] { return (int)x.is_ready(); }), e = get_code([&] { return (int)x.has_error(); });
            MC_CHECK(r == (valid ? (int)(result != -100) : -4), "%s.is_ready() gave %d with result %d", n, r, result);
            MC_CHECK(e == (valid ? (int)(result >= 1000 || result == -2) : -4), "%s.has_error() gave %d with result %d", n, e, result);
            int w = get_code([&] { return (int)x.wait_for(1us); });
            MC_CHECK(w == (valid ? (int)(result != -100 ? std::future_status::ready : std::future_status::timeout) : -4), "%s.wait_for gave %d", n, w);
            if(!valid || result != -100) MC_CHECK(get_code([&] { x.wait(); return ok; }) == (valid ? ok : -4), "%s.wait", n);
        };
        inspect(f, f_ok, "future");
        inspect(s1, s1_ok, "shared");
        inspect(s2, s2_ok, "shared copy");
    }
}
} // namespace
SCENARIO(sequences_int, 0, 0, 0, 0) { sequence<int>(mc_thorough() ? 5 : 4); }
SCENARIO(sequences_void, 0, 0, 0, 0) { sequence<void>(mc_thorough() ? 5 : 4); }
SCENARIO(sequences_move_only, 0, 0, 0, 0) { sequence<std::unique_ptr<int>>(mc_thorough() ? 5 : 4); }
SCENARIO(sequences_string, 0, 0, 0, 0) { sequence<std::string>(mc_thorough() ? 5 : 4); }

// racing setters: exactly one wins and its result is what everybody gets
template<typename T>
static void racing(int ka, int kb)
{
    Session s;
    tpp::promise<T> p;
    auto sf = p.get_future().share();
    mc::Var<int> a{-100}, b{-100};
    auto set = [&p](int kind, int v) {
        return get_code([&] {
            if(kind == 1) p.set_exception(std::make_exception_ptr(Oops{v}));
            else if(kind == 2) p.abandon();
            else put<T>(p, v);
            return 1;
        });
    };
    int got;
    {
        Explore e;
        Raw r([&] { a = set(ka, 5); });
        Raw q([&] { b = set(kb, 6); });
        tpp::shared_future<T> mine = sf;
        got = get_code([&] { return take<T>(mine); });
        MC_CHECK(mine.is_ready(), "ready after get");
        MC_CHECK(get_code([&] { return take<T>(mine); }) == got, "second get differs");
    }
    MC_CHECK((a == 1) + (b == 1) == 1, "%d setters succeeded", (a == 1) + (b == 1));
    MC_CHECK(a == 1 || a == -5, "losing setter reported %d", a.get());
    MC_CHECK(b == 1 || b == -5, "losing setter reported %d", b.get());
    int kind = a == 1 ? ka : kb, v = a == 1 ? 5 : 6;
    int expect = kind == 2 ? -2 : kind == 1 ? 1000 + v : std::is_void<T>::value ? 0 : v;
    MC_CHECK(got == expect, "get gave %d, the successful setter stored %d", got, expect);
    MC_CHECK(get_code([&] { return take<T>(sf); }) == expect, "later get differs");
    MC_CHECK(sf.has_error() == (kind != 0), "error state");
}
SCENARIO(racing_setters, 99, 99, 0, 0)
{
    int ka = mc::choose(3, "a"), kb = mc::choose(3, "b");
    if(mc::choose(2, "void")) racing<void>(ka, kb);
    else racing<int>(ka, kb);
}

// concurrent readers of one shared state see the same object
SCENARIO(shared_readers, 8, 9, 0, 0)
{
    Session s;
    tpp::promise<std::string> p;
    auto sf = p.get_future().share();
    mc::Var<const void*> a{nullptr}, b{nullptr};
    bool err = mc::choose(2, "error");
    {
        Explore e;
        auto reader = [&](mc::Var<const void*>& out) {
            tt::register_this_thread();
            auto mine = sf;
            if(err) MC_CHECK(get_code([&] { mine.get(); return 1; }) == 1003, "error");
            else
            {
                auto& v = mine.get();
                MC_CHECK(v == "hello, a string that does not fit in place", "value");
                out = &v;
            }
            tt::unregister_this_thread();
        };
        Raw x([&] { reader(a); });
        Raw y([&] { reader(b); });
        if(err) p.set_exception(std::make_exception_ptr(Oops{3}));
        else p.set_value("hello, a string that does not fit in place");
    }
    MC_CHECK(a == b && (err || a != nullptr), "holders see different objects");
}

// an exception while storing the value leaves the promise usable
namespace
{
struct Thrower
{
    bool bad;
    explicit Thrower(bool b) : bad(b) {}
    Thrower(const Thrower& o) : bad(o.bad) { if(bad) throw Oops{4}; }
    Thrower(Thrower&& o) : bad(o.bad) { if(bad) throw Oops{5}; }
};
} // namespace
SCENARIO(throwing_value, 0, 0, 0, 0)
{
    Session s;
    tpp::promise<Thrower> p;
    auto f = p.get_future();
    Thrower t(true);
    int how = mc::choose(2, "how");
    MC_CHECK(get_code([&] { if(how) p.set_value(t); else p.set_value(std::move(t)); return 1; }) == (how ? 1004 : 1005), "exception passes through");
    MC_CHECK(!f.is_ready(), "ready without a value");
    if(mc::choose(2, "then"))
    {
        p.set_value(Thrower(false));
        MC_CHECK(f.is_ready() && !f.has_error() && !f.get().bad, "value");
    }
    else
    {
        p.set_exception(std::make_exception_ptr(Oops{8}));
        MC_CHECK(get_code([&] { f.get(); return 1; }) == 1008, "exception");
    }
}

// ready-made futures
SCENARIO(ready_made, 0, 0, 0, 0)
{
    Session s;
    auto a = tpp::make_ready_future(5);
    MC_CHECK(a.valid() && a.is_ready() && !a.has_error() && a.get() == 5 && !a.valid(), "ready value");
    auto b = tpp::make_ready_future();
    MC_CHECK(b.is_ready() && !b.has_error(), "ready void");
    b.get();
    MC_CHECK(!b.valid(), "get releases");
    auto c = tpp::make_ready_future(std::make_unique<int>(7));
    MC_CHECK(*c.get() == 7, "move only");
    auto d = tpp::make_exceptional_future<int>(Oops{2});
    MC_CHECK(d.is_ready() && d.has_error() && get_code([&] { return d.get(); }) == 1002 && !d.valid(), "exceptional");
    auto e = tpp::make_exceptional_future<void>(std::make_exception_ptr(Oops{3}));
    MC_CHECK(e.has_error() && get_code([&] { e.get(); return 1; }) == 1003, "exceptional from pointer");
    auto g = tpp::make_ready_future(std::string("x")).share();
    auto h = g;
    MC_CHECK(&g.get() == &h.get() && g.valid(), "shared get keeps the state");
    tpp::future<int> none;
    tpp::shared_future<int> sn;
    MC_CHECK(!none.valid() && !sn.valid(), "default constructed");
    MC_CHECK(get_code([&] { return none.get(); }) == -4 && get_code([&] { return sn.get(); }) == -4, "get without state");
    MC_CHECK(get_code([&] { none.wait(); return 1; }) == -4 && get_code([&] { none.wait_for(1s); return 1; }) == -4, "wait without state");
    MC_CHECK(get_code([&] { none.then(tt::get_id(), [](tpp::future<int>) {}); return 1; }) == -4, "then without state");
    MC_CHECK(get_code([&] { sn.then(tt::get_id(), [](tpp::shared_future<int>) {}); return 1; }) == -4, "then without state");
    tpp::promise<bool> pb;
    auto fb = pb.get_future();
    bool bit = mc::choose(2, "bool");
    pb.set_value(bit);
    MC_CHECK(fb.get() == bit, "bool");
    // a value equal to zero or empty is still a value
    tpp::promise<int*> pp;
    auto fp = pp.get_future();
    pp.set_value(nullptr);
    MC_CHECK(fp.is_ready() && !fp.has_error() && fp.get() == nullptr, "null pointer value");
}
