// Interface between the scenarios (compiled together with the code under test
// into a shared object) and the model checker executable that loads it.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C"
{
int mc_choose(int n, const char* what);
void mc_explore(int on);
void mc_settle();
void mc_point(const char* what);
void mc_yield();
[[noreturn]] void mc_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_observe(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t mc_now();
void mc_advance(uint64_t ns);
int mc_self();
int mc_preempted_count();
void mc_allow_leftover(int on);
void mc_max_steps(unsigned n);   // for scenarios that are long by design
unsigned mc_steps();             // of this execution so far
void mc_var(const void* addr, int kind); // 0 read, 1 write, 2 commutative update
int mc_thorough();
int mc_live_fibers();
uint64_t mc_live_allocs();
void mc_quiet_alloc(int on);
int mc_refcount_add(volatile int* p, int v);
int mc_running(); // inside a model execution?
}

#define MC_NOSAN __attribute__((no_sanitize("thread")))

namespace mc
{
inline int choose(int n, const char* what = "choose") { return mc_choose(n, what); }
inline void explore(bool on) { mc_explore(on); }
inline void settle() { mc_settle(); }
inline void point(const char* what = "point") { mc_point(what); }
inline void yield() { mc_yield(); }
inline uint64_t now() { return mc_now(); }
inline void advance(uint64_t ns) { mc_advance(ns); }
inline void max_steps(unsigned n) { mc_max_steps(n); }
inline unsigned steps() { return mc_steps(); }
inline int self() { return mc_self(); }

// Oracle variable: visible to the state hash, invisible to the race detector and
// adds no happens-before edge (so that it cannot hide a missing one in the library).
template<typename T>
class Var
{
public:
    Var() = default;
    explicit Var(T v) : v_(v) {}
    Var(const Var&) = delete;
    Var& operator=(const Var&) = delete;
    MC_NOSAN T get() const { mc_var(&v_, 0); return v_; }
    MC_NOSAN void set(T v) { mc_var(&v_, 1); v_ = v; }
    MC_NOSAN operator T() const { return get(); }
    MC_NOSAN Var& operator=(T v) { set(v); return *this; }
    MC_NOSAN T operator++(int) { mc_var(&v_, 1); return v_++; }
    MC_NOSAN T operator--(int) { mc_var(&v_, 1); return v_--; }
private:
    T v_{};
};

// Commutative counter for oracles.
class Count
{
public:
    Count() = default;
    Count(const Count&) = delete;
    MC_NOSAN void add(int d = 1) { mc_var(&v_, 2); v_ += d; }
    MC_NOSAN int get() const { mc_var(&v_, 1); return v_; }
    MC_NOSAN operator int() const { return get(); }
private:
    int v_ = 0;
};

// Ordered log for oracles.
template<int N>
class Log
{
public:
    MC_NOSAN void push(int x)
    {
        mc_var(&n_, 1);
        if(n_ >= N) mc_fail("oracle log overflow: more events than expected (last %d)", x);
        d_[n_++] = x;
    }
    MC_NOSAN int size() const { mc_var(&n_, 0); return n_; }
    MC_NOSAN int operator[](int i) const { mc_var(&n_, 0); return i < n_ ? d_[i] : -1; }
    MC_NOSAN int index_of(int x) const
    {
        mc_var(&n_, 0);
        for(int i = 0; i < n_; ++i) if(d_[i] == x) return i;
        return -1;
    }
    MC_NOSAN int count(int x) const
    {
        mc_var(&n_, 0);
        int c = 0;
        for(int i = 0; i < n_; ++i) c += d_[i] == x;
        return c;
    }
private:
    int n_ = 0;
    int d_[N];
};

struct Scenario
{
    const char* name;
    void (*fn)();
    int p_quick, p_thorough; // preemption bounds (99: unbounded)
    int t, s;                // budgets: early timer expiry, spurious wakeups
    Scenario* next;
};
Scenario*& scenario_list();
struct Reg
{
    Reg(Scenario* s) { s->next = scenario_list(); scenario_list() = s; }
};
} // namespace mc

// SCENARIO(name, preemption bound quick, preemption bound thorough, timer budget, spurious wakeup budget)
#define SCENARIO(NAME, PQ, PT, T, S)                                                          \
    static void scen_##NAME();                                                                \
    static mc::Scenario scenrec_##NAME{#NAME, scen_##NAME, PQ, PT, T, S, nullptr};            \
    static mc::Reg scenreg_##NAME(&scenrec_##NAME);                                           \
    static void scen_##NAME()

#define MC_CHECK(cond, ...)                                                                   \
    do { if(!(cond)) mc_fail("check failed: " #cond " -- " __VA_ARGS__); } while(0)
