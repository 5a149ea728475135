// Inputs of when_all / when_any: each is ready before the call or satisfied later by one of two threads.
#pragma once
#include "common.h"
#include <deque>
#include <list>

struct Inputs
{
    enum Mode { ready_before, by_a, by_b, n_modes };
    int n;
    std::vector<tpp::promise<int>> p;
    std::vector<int> mode, err;
    std::vector<mc::Var<bool>> set_;
    std::vector<tpp::future<int>> f;
    std::vector<tpp::shared_future<int>> sf;

    explicit Inputs(int count) : n(count), p(count), mode(count), err(count), set_(count), f(count), sf(count) {}
    void choose(bool with_errors = true)
    {
        for(int i = 0; i < n; ++i)
        {
            mode[i] = mc::choose(n_modes, "mode");
            err[i] = with_errors ? mc::choose(2, "error") : 0;
        }
    }
    void open(bool shared)
    {
        for(int i = 0; i < n; ++i)
        {
            set_[i] = false;
            f[i] = p[i].get_future();
            if(shared) sf[i] = f[i].share();
            if(mode[i] == ready_before) set(i);
        }
    }
    void set(int i)
    {
        set_[i] = true;
        if(err[i]) p[i].set_exception(std::make_exception_ptr(Oops{i}));
        else p[i].set_value(10 + i);
    }
    void set_by(int who, bool backwards = false)
    {
        for(int k = 0; k < n; ++k)
        {
            int i = backwards ? n - 1 - k : k;
            if(mode[i] == who) set(i);
        }
    }
    int code(int i) const { return err[i] ? 1000 + i : 10 + i; }
    bool all_set() const
    {
        for(auto& s : set_) if(!s.get()) return false;
        return true;
    }
    template<typename F>
    void check_value(F& x, int i)
    {
        MC_CHECK(x.valid(), "input %d came back invalid", i);
        MC_CHECK(x.is_ready(), "input %d not ready", i);
        MC_CHECK(x.has_error() == (err[i] == 1), "input %d: error state %d", i, (int)x.has_error());
        int c = get_code([&] { return (int)x.get(); });
        MC_CHECK(c == code(i), "input %d came back with %d, expected %d", i, c, code(i));
    }
};
template<typename T, typename F>
void each(std::vector<T>& futures, F&& f)
{
    for(size_t i = 0; i < futures.size(); ++i) f(futures[i], (int)i);
}
template<typename... T, typename F>
void each(std::tuple<T...>& futures, F&& f)
{
    int i = 0;
    std::apply([&](auto&... x) { (f(x, i++), ...); }, futures);
}
// a range that can be passed over only once
template<typename T>
struct OnePass
{
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = T*;
    using reference = T&;
    std::vector<T>* v;
    size_t* pos; // of all iterators of the range; none: the end
    T& operator*() const
    {
        MC_CHECK(*pos < v->size(), "element after the end looked at");
        return (*v)[*pos];
    }
    OnePass& operator++()
    {
        MC_CHECK(pos && *pos < v->size(), "moved past the end");
        ++*pos;
        return *this;
    }
    void operator++(int) { ++*this; }
    bool at_end() const { return !pos || *pos == v->size(); }
    bool operator==(const OnePass& o) const { return at_end() == o.at_end(); }
    bool operator!=(const OnePass& o) const { return !(*this == o); }
};
// gives the n inputs to the call as ranges of all kinds
enum { r_list, r_deque, r_array, r_one_pass, r_moved, r_part, r_const, n_ranges };
template<typename T, typename Call>
auto as_range(int kind, std::vector<T>& v, Call&& call)
{
    if(kind == r_list)
    {
        std::list<T> l(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()));
        return call(l.begin(), l.end());
    }
    if(kind == r_deque)
    {
        std::deque<T> d(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()));
        return call(d.begin(), d.end());
    }
    if(kind == r_array) return call(v.data(), v.data() + v.size());
    if(kind == r_one_pass)
    {
        size_t pos = 0;
        return call(OnePass<T>{&v, &pos}, OnePass<T>{&v, nullptr});
    }
    if(kind == r_moved) return call(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()));
    if(kind == r_part)
    {
        std::vector<T> more(v.size() + 2);
        std::move(v.begin(), v.end(), more.begin() + 1);
        return call(more.begin() + 1, more.end() - 1);
    }
    if constexpr(std::is_copy_constructible<T>::value)
    {
        const auto& c = v;
        return call(c.begin(), c.end());
    }
    else return call(v.rbegin(), v.rend());
}
