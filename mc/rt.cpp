// Stateless model checker for the real code under test.
//
// The code under test and one harness are compiled with -fsanitize=thread into a shared object
// that is linked WITHOUT the sanitizer runtime.  This executable supplies every symbol that
// object needs to interact with the world: the __tsan_* callbacks, the pthread API, malloc, the
// clocks.  Threads of the program become user-mode fibers, one of which runs at a time; at each
// visible operation the explorer decides who runs next.  All schedules within the given bounds
// are enumerated by depth-first search with re-execution from the start; states already reached
// by an equivalent history (happens-before hashing) are not explored twice.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc.h"
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define PC() __builtin_return_address(0)
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uintptr_t uptr;

namespace
{
//---------------------------------------------------------------- constants
constexpr int NF = 32;                        // fibers per execution
constexpr uptr BASE = 0x200000000000ull;      // model memory
constexpr uptr ARENA_SZ = 64ull << 20;        // per fiber heap; arena 0 is the load-time one
constexpr uptr ARENA_TOTAL = ARENA_SZ * (NF + 1);
constexpr uptr STACK_SZ = 512ull << 10;
constexpr uptr STACK_BASE = BASE + ARENA_TOTAL;
constexpr uptr MODEL_TOTAL = ARENA_TOTAL + STACK_SZ * NF;
constexpr uptr SHADOW = 0x300000000000ull;    // 4 cells of 8 bytes per 8 bytes
constexpr uptr SHADOW_PC = 0x380000000000ull; // program counters of the cells
constexpr uptr LIVE = 0x3f0000000000ull;      // 1 byte per 8 bytes of heap
constexpr u64 TICK = 50;                      // ns added when a timer fires
constexpr u64 T0 = 1000000000000ull;          // virtual monotonic clock at start
constexpr u64 REAL_OFF = 1600000000000000000ull;
constexpr int STEP_CAP = 150000;
constexpr int SPIN_CAP = 500;

inline u64 mix(u64 a, u64 b)
{
    u64 x = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2));
    x ^= x >> 32;
    x *= 0xd6e8feb86659fd93ull;
    x ^= x >> 29;
    x *= 0xc2b2ae3d27d4eb4full;
    x ^= x >> 32;
    return x;
}
inline u64 mix(u64 a, u64 b, u64 c) { return mix(mix(a, b), c); }
inline u64 mix(u64 a, u64 b, u64 c, u64 d) { return mix(mix(a, b), mix(c, d)); }

struct VC
{
    u32 c[NF];
    void join(const VC& o) { for(int i = 0; i < NF; ++i) if(o.c[i] > c[i]) c[i] = o.c[i]; }
    void clear() { memset(c, 0, sizeof c); }
};

enum OpK : u8 { O_NONE, O_LOCK, O_RDLOCK, O_WRLOCK, O_JOIN, O_ONCE, O_SETTLE, O_TIMEDLOCK, O_SEM, O_TIMEDSEM };
enum St : u8 { S_FREE, S_RUN, S_WAIT, S_SLEEP, S_EXITED };

struct TlsDtor { void (*fn)(void*); void* arg; };

struct Fiber
{
    int idx;
    St st;
    OpK op;
    bool timed, timedout, detached, joined, exited_released, killed;
    int oobj;            // object of the pending op / the condition variable waited for
    int mobj;            // mutex to reacquire
    void* sp;
    u64 H;
    u64 deadline;
    VC vc, acqf, relf;
    bool has_relf;
    u64 eh[2];
    char* tls;
    int slot;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    uptr bump;
    int ndtor;
    TlsDtor dtors[64];
    void* keys[64];
    const char* what;
    void* pc;
};

enum ObK : u8 { K_NONE, K_MUTEX, K_COND, K_ATOMIC, K_RW, K_ONCE, K_VAR, K_SEM };
struct Obj
{
    uptr addr;
    u64 id;
    ObK kind;
    int owner, count, readers; // mutex / rwlock / once state
    u64 Hw, R;
    VC vc;
    int nwait;
    u8 wait[NF];
    bool rt_clock_mono;
};

struct Opt { u8 type; u8 f; u8 p, t, s; };
enum { OT_RUN, OT_FIRE, OT_SPUR, OT_DATA };
struct Node { u32 pt; u64 key; u8 cur; u8 n; std::vector<Opt> o; };

//---------------------------------------------------------------- globals
Fiber F[NF];
int nf = 0;
Fiber* cur = nullptr;    // running fiber
int g_in = 0;            // 1 while model code runs (allocation goes to the fiber arena)
u64 g_exec = 0;          // execution tag in shadow cells
u64 g_now = T0;
int g_reads_since_advance = 0;
void* engine_sp = nullptr;
u64 keysum = 0;
bool exploring = false;
int rem_p, rem_t, rem_s;
int bud_p, bud_t, bud_s;
bool bound_hit = false;
bool unbounded = false;
u32 pt = 0;
u32 prefix_pt = 0;
size_t depth = 0;
int consec = 0;
bool main_done = false;
bool leftover_ok = false;
u32 step_cap = STEP_CAP;
int outcome = 0; // 0 running 1 complete 2 pruned 3 violation
bool rc_points = false;
bool thorough = false;
int preempted = 0;
bool verbose = false;
bool replaying = false;
u64 h_threads = 0; // hash object for thread creation order
bool diverged = false;
volatile u64 g_progress = 0;

std::vector<Node>* nodes;
std::string* obs;
std::string* vmsg;
std::vector<u64>* replay_choices;

constexpr int MAXOBJ = 1 << 21;
Obj* objs;
int nobj = 0;
struct OEnt { uptr addr; u64 exec; int idx; };
// tables of addresses: an execution starts with the smallest one and moves on when it is a quarter full
constexpr u32 OTABS[3] = {1 << 18, 1 << 20, 1 << 23};
OEnt* otabs[3];
OEnt* otab;
u32 omask;
int otab_idx;

u8* live = (u8*)LIVE;
uptr so_lo = 0, so_hi = 0;   // writable part of the model object
uptr so_base = 0;
u64* so_shadow = nullptr;
u64* so_shadow_pc = nullptr;
char* tls_block = nullptr;
size_t tls_size = 0;
char* tls_init = nullptr;
struct Seg { uptr lo, len; char* save; };
Seg segs[16];
int nsegs = 0;
char* init_save = nullptr;
char* init_live_save = nullptr;
uptr init_used = 0;
uptr init_bump = 0;
bool model_ready = false;
bool loading_model = false;
FILE *eng_out, *eng_err; // what the code under test prints goes nowhere
u64 live_allocs = 0;
bool pslots[4096];

// statistics
u64 st_exec = 0, st_complete = 0, st_pruned = 0, st_steps = 0, st_states = 0, st_newsteps = 0;
u64 st_maxpt = 0, st_preempt_max = 0;

// visited table
struct Vis { u64 key; u64 bits; };
Vis* vis = nullptr;
u64 vis_cap = 0, vis_n = 0;
bool vis_full = false;
bool nocache = false;

inline u64 budbit(int p, int t, int s)
{
    if(p > 15) p = 15;
    if(t > 1) t = 1;
    if(s > 1) s = 1;
    return 1ull << (p + 16 * (t + 2 * s));
}
u64 budmask(int p, int t, int s)
{
    u64 m = 0;
    if(p > 15) p = 15;
    if(t > 1) t = 1;
    if(s > 1) s = 1;
    for(int i = 0; i <= p; ++i) for(int j = 0; j <= t; ++j) for(int k = 0; k <= s; ++k) m |= budbit(i, j, k);
    return m;
}

//---------------------------------------------------------------- system heap (engine, loader)
struct SysHdr { u64 size; u64 cls; };
char* sys_cur = nullptr;
char* sys_end = nullptr;
void* sys_free[64];
void* sys_alloc(size_t n)
{
    if(n < 16) n = 16;
    int c = 64 - __builtin_clzll(n - 1);
    size_t sz = 1ull << c;
    if(sys_free[c])
    {
        void* p = sys_free[c];
        sys_free[c] = *(void**)p;
        return p;
    }
    size_t tot = sz + 16;
    if(sz >= (1 << 20))
    {
        char* p = (char*)mmap(0, tot + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(p == MAP_FAILED) return nullptr;
        SysHdr* h = (SysHdr*)(p + 4096 - 16);
        h->size = sz; h->cls = c;
        return p + 4096;
    }
    if(!sys_cur || sys_cur + tot > sys_end)
    {
        sys_cur = (char*)mmap(0, 16 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        sys_end = sys_cur + (16 << 20);
    }
    SysHdr* h = (SysHdr*)sys_cur;
    sys_cur += tot;
    h->size = sz; h->cls = c;
    return h + 1;
}
void sys_release(void* p)
{
    SysHdr* h = (SysHdr*)p - 1;
    *(void**)p = sys_free[h->cls];
    sys_free[h->cls] = p;
}

//---------------------------------------------------------------- fiber switch
extern "C" void mc_switch(void** save, void* to);
asm(R"(
.text
.globl mc_switch
.hidden mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
)");

struct Enter
{
    int old;
    Enter() : old(g_in) { g_in = 0; }
    ~Enter() { g_in = old; }
};

const char* sym(void* pc)
{
    static char buf[8][64];
    static int k = 0;
    char* b = buf[k++ & 7];
    Dl_info di;
    if(so_base && dladdr(pc, &di) && (uptr)di.dli_fbase == so_base)
        snprintf(b, 64, "model+0x%llx", (unsigned long long)((uptr)pc - so_base));
    else
        snprintf(b, 64, "%p", pc);
    return b;
}

[[noreturn]] void to_engine(int oc)
{
    g_in = 0;
    outcome = oc;
    void* dummy;
    mc_switch(&dummy, engine_sp);
    __builtin_unreachable();
}

[[noreturn]] void violation(const char* kind, const char* fmt, ...)
{
    g_in = 0;
    if(!cur)
    {
        va_list ap; va_start(ap, fmt);
        vfprintf(eng_err, fmt, ap);
        fprintf(eng_err, "\n%s outside of a model execution\n", kind);
        _exit(3);
    }
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    *vmsg = std::string(kind) + ": " + buf + " (in thread " + std::to_string(cur ? cur->idx : -1) + ")";
    to_engine(3);
}

void setH(Fiber* f, u64 h)
{
    keysum -= mix(0x1000 + f->idx, f->H);
    f->H = h;
    keysum += mix(0x1000 + f->idx, f->H);
}

u64 norm(uptr a)
{
    if(a - so_lo < so_hi - so_lo) return (a - so_lo) + 1;
    return a;
}

void otab_use(int i)
{
    otab_idx = i;
    otab = otabs[i];
    omask = OTABS[i] - 1;
}
u32 oslot(uptr a)
{
    u32 h = (u32)((a >> 2) * 0x9E3779B1u) & omask;
    while(otab[h].exec == g_exec && otab[h].addr != a) h = (h + 1) & omask;
    return h;
}

Obj* obj(const void* p, ObK k)
{
    uptr a = (uptr)p;
    u32 h = oslot(a);
    if(otab[h].exec == g_exec)
    {
        Obj* o = &objs[otab[h].idx];
        if(o->kind == k) return o;
        if(o->kind == K_ATOMIC || o->kind == K_VAR || k == K_ATOMIC || k == K_VAR) { o->kind = k; return o; }
        o->kind = k; o->owner = -1; o->count = 0; o->readers = 0; o->nwait = 0;
        return o;
    }
    if(nobj >= MAXOBJ) violation("resource", "too many synchronisation objects");
    otab[h] = {a, g_exec, nobj};
    Obj* o = &objs[nobj++];
    o->addr = a;
    if((u32)nobj > omask / 4 && otab_idx < 2)
    {
        otab_use(otab_idx + 1);
        for(int i = 0; i < nobj; ++i) otab[oslot(objs[i].addr)] = {objs[i].addr, g_exec, i};
    }
    o->id = mix(0x77, norm(a));
    o->kind = k;
    o->owner = -1; o->count = 0; o->readers = 0; o->nwait = 0;
    o->Hw = o->id; o->R = 0;
    o->vc.clear();
    o->rt_clock_mono = false;
    return o;
}

void hwrite(Fiber* f, Obj* o, u64 op)
{
    setH(f, mix(f->H, op, o->id, mix(o->Hw, o->R)));
    o->Hw = f->H;
    o->R = 0;
}
void hread(Fiber* f, Obj* o, u64 op)
{
    setH(f, mix(f->H, op, o->id, o->Hw));
    o->R += mix(0x55, f->H);
}

//---------------------------------------------------------------- scheduling
bool timed_op(OpK k) { return k == O_TIMEDLOCK || k == O_TIMEDSEM; }
bool op_enabled(Fiber* f)
{
    switch(f->op)
    {
        case O_NONE: return true;
        case O_LOCK: { Obj* o = &objs[f->oobj]; return o->owner < 0 || (o->owner == f->idx && f->mobj == 1); }
        case O_RDLOCK: { Obj* o = &objs[f->oobj]; return o->owner < 0; }
        case O_WRLOCK: { Obj* o = &objs[f->oobj]; return o->owner < 0 && o->readers == 0; }
        case O_JOIN: return F[f->oobj].st == S_EXITED;
        case O_ONCE: return objs[f->oobj].owner < 0;
        case O_SEM: return objs[f->oobj].count > 0;
        case O_TIMEDSEM: return objs[f->oobj].count > 0 || f->timedout;
        case O_SETTLE: return false;
        case O_TIMEDLOCK: { Obj* o = &objs[f->oobj]; return o->owner < 0 || f->timedout; }
    }
    return false;
}
bool enabled(Fiber* f) { return f->st == S_RUN && op_enabled(f); }

const char* opname(Fiber* f)
{
    static char b[160];
    static const char* n[] = {"run", "lock", "rdlock", "wrlock", "join", "once", "settle", "timedlock", "sem", "timed sem"};
    if(f->st == S_EXITED) return "exited";
    if(f->st == S_WAIT) { snprintf(b, sizeof b, "waiting on condition %llx%s", (unsigned long long)norm(objs[f->oobj].addr), f->timed ? " (timed)" : ""); return b; }
    if(f->st == S_SLEEP) return "sleeping";
    if(f->op == O_LOCK) { snprintf(b, sizeof b, "lock of mutex %llx owned by thread %d", (unsigned long long)norm(objs[f->oobj].addr), objs[f->oobj].owner); return b; }
    if(f->op == O_JOIN) { snprintf(b, sizeof b, "join of thread %d", f->oobj); return b; }
    return n[f->op];
}

std::string describe_all()
{
    std::string s;
    for(int i = 0; i < nf; ++i)
        if(F[i].st != S_EXITED)
        {
            char b[300];
            snprintf(b, sizeof b, "%sthread %d: %s at %s", s.empty() ? "" : "; ", i, opname(&F[i]), sym(F[i].pc));
            s += b;
        }
    return s;
}

void switch_to(Fiber* t)
{
    if(t == cur) return;
    Fiber* c = cur;
    u64* eh = (u64*)abi::__cxa_get_globals();
    c->eh[0] = eh[0]; c->eh[1] = eh[1];
    if(tls_size)
    {
        memcpy(c->tls, tls_block, tls_size);
        memcpy(tls_block, t->tls, tls_size);
    }
    eh[0] = t->eh[0]; eh[1] = t->eh[1];
    cur = t;
    consec = 0;
    mc_switch(&c->sp, t->sp);
    // resumed
    g_in = 0;
}

void remove_waiter(Obj* o, int f)
{
    int j = 0;
    for(int i = 0; i < o->nwait; ++i) if(o->wait[i] != f) o->wait[j++] = o->wait[i];
    o->nwait = j;
}

void vis_check_mark(u64 key)
{
    if(vis_full || nocache) return;
    u64 h = key & (vis_cap - 1);
    u64 b = budbit(rem_p, rem_t, rem_s);
    while(vis[h].key && vis[h].key != key) h = (h + 1) & (vis_cap - 1);
    if(vis[h].key == key)
    {
        if(vis[h].bits & b) to_engine(2);
        vis[h].bits |= budmask(rem_p, rem_t, rem_s);
        return;
    }
    if(vis_n * 10 > vis_cap * 7) { vis_full = true; return; }
    vis[h].key = key;
    vis[h].bits = budmask(rem_p, rem_t, rem_s);
    ++vis_n;
    ++st_states;
}

// Picks among options (already filtered to affordable ones); returns the index.
int decide(std::vector<Opt>& o, u64 key)
{
    if(o.size() == 1) return 0;
    if(depth < nodes->size())
    {
        Node& n = (*nodes)[depth];
        if(n.key != key || n.n != o.size())
        {
            diverged = true;
            to_engine(2);
        }
        ++depth;
        return n.cur;
    }
    if(replaying)
    {
        size_t c = 0;
        if(depth < replay_choices->size()) c = (*replay_choices)[depth];
        if(c >= o.size()) { diverged = true; to_engine(2); }
        Node n; n.pt = pt; n.key = key; n.cur = (u8)c; n.n = (u8)o.size(); n.o = o;
        nodes->push_back(n);
        ++depth;
        return (int)c;
    }
    Node n; n.pt = pt; n.key = key; n.cur = 0; n.n = (u8)o.size(); n.o = o;
    nodes->push_back(n);
    ++depth;
    return 0;
}

std::vector<Opt>* optbuf;

void step_check()
{
    ++pt;
    ++st_steps;
    ++g_progress;
    if(pt > prefix_pt) ++st_newsteps;
    if(pt > step_cap) violation("livelock", "no end after %u steps under fair scheduling; %s", step_cap, describe_all().c_str());
}

// The running fiber has set its state (pending op, waiting, exited...).  Returns when it was
// chosen to run again.
void schedule(bool yielding)
{
    for(;;)
    {
        Fiber* c = cur;
        step_check();
        ++consec;
        bool forced = false;
        bool c_en = enabled(c);
        if(c_en && consec > SPIN_CAP) forced = true;
        std::vector<Opt>& o = *optbuf;
        o.clear();
        bool stay = c_en && !yielding && !forced;
        if(stay) o.push_back({OT_RUN, (u8)c->idx, 0, 0, 0});
        for(int k = 1; k < nf; ++k)
        {
            Fiber* f = &F[(c->idx + k) % nf];
            if(enabled(f))
            {
                o.push_back({OT_RUN, (u8)f->idx, (u8)(stay && !unbounded ? 1 : 0), 0, 0});
                if(forced) break;
            }
        }
        if(o.empty() && c_en) o.push_back({OT_RUN, (u8)c->idx, 0, 0, 0});
        if(o.empty())
            for(int k = 0; k < nf; ++k)
                if(F[k].st == S_RUN && F[k].op == O_SETTLE) { o.push_back({OT_RUN, (u8)k, 0, 0, 0}); break; }
        bool idle = o.empty();
        if(!forced)
        {
            // timers
            int best = -1;
            if(idle)
            {
                for(int k = 0; k < nf; ++k)
                    if(F[k].timed && (F[k].st == S_WAIT || F[k].st == S_SLEEP || (F[k].st == S_RUN && timed_op(F[k].op))))
                        if(best < 0 || F[k].deadline < F[best].deadline) best = k;
                if(best >= 0) o.push_back({OT_FIRE, (u8)best, 0, 0, 0});
            }
            if(exploring)
            {
                for(int k = 0; k < nf; ++k)
                {
                    if(k == best) continue;
                    if(F[k].timed && (F[k].st == S_WAIT || F[k].st == S_SLEEP || (F[k].st == S_RUN && timed_op(F[k].op) && !F[k].timedout)))
                    {
                        bool free = idle && (F[k].deadline <= g_now || (best >= 0 && F[k].deadline == F[best].deadline));
                        o.push_back({OT_FIRE, (u8)k, 0, (u8)(free ? 0 : 1), 0});
                    }
                }
                if(bud_s)
                    for(int k = 0; k < nf; ++k)
                        if(F[k].st == S_WAIT) o.push_back({OT_SPUR, (u8)k, 0, 0, 1});
            }
        }
        // free options present?
        bool any_free = false;
        for(auto& x : o) if(!x.p && !x.t && !x.s) any_free = true;
        if(!any_free)
        {
            // nothing can run by itself any more
            if(main_done)
            {
                bool left = false;
                for(int k = 0; k < nf; ++k) if(F[k].st != S_EXITED) left = true;
                if(left && !leftover_ok)
                    violation("leftover", "threads still blocked after the program ended: %s", describe_all().c_str());
                to_engine(1);
            }
            violation("deadlock", "no thread can run: %s", describe_all().c_str());
        }
        int pick = 0;
        if(exploring)
        {
            size_t total = o.size();
            size_t j = 0;
            for(size_t i = 0; i < o.size(); ++i)
            {
                if(o[i].p <= rem_p && o[i].t <= rem_t && o[i].s <= rem_s) o[j++] = o[i];
                else if(o[i].t <= bud_t && o[i].s <= bud_s) bound_hit = true;
            }
            o.resize(j);
            if(total > 1)
            {
                u64 key = mix(keysum, (u64)c->idx * 4 + yielding * 2 + forced, g_now);
                if(!key) key = 1;
                if(pt > prefix_pt && !replaying) vis_check_mark(key);
                pick = decide(o, key);
            }
        }
        else
        {
            for(size_t i = 0; i < o.size(); ++i) if(!o[i].p && !o[i].t && !o[i].s) { pick = (int)i; break; }
        }
        Opt ch = o[pick];
        rem_p -= ch.p; rem_t -= ch.t; rem_s -= ch.s;
        if(ch.type == OT_RUN && stay && ch.f != c->idx) ++preempted;
        Fiber* t = &F[ch.f];
        if(ch.type == OT_RUN)
        {
            if(verbose && t != c)
                fprintf(eng_err, "  [%5u] %s switch %d -> %d (thread %d: %s%s%s at %s)\n", pt, stay ? "PREEMPT" : "       ", c->idx, t->idx, c->idx, opname(c), c->what ? " " : "", c->what ? c->what : "", sym(c->pc));
            if(forced) consec = 0;
            switch_to(t);
            return;
        }
        // a waiting fiber is released without being notified
        if(verbose)
            fprintf(eng_err, "  [%5u] %s of thread %d at virtual time +%llu ns\n", pt, ch.type == OT_FIRE ? "TIMEOUT" : "SPURIOUS WAKEUP", t->idx, (unsigned long long)(t->deadline > T0 ? t->deadline - T0 : 0));
        if(ch.type == OT_FIRE)
        {
            if(t->deadline > g_now) g_now = t->deadline;
            g_now += TICK;
            g_reads_since_advance = 0;
            t->timedout = true;
            setH(t, mix(t->H, 0xF1, g_now));
        }
        else
            setH(t, mix(t->H, 0xF2));
        t->timed = false;
        if(t->st == S_WAIT)
        {
            Obj* o2 = &objs[t->oobj];
            remove_waiter(o2, t->idx);
            o2->Hw = mix(o2->Hw, t->H);
            t->st = S_RUN;
            t->op = t->mobj < 0 ? O_NONE : O_LOCK;
            t->oobj = t->mobj;
            t->mobj = 0;
        }
        else if(t->st == S_SLEEP)
        {
            t->st = S_RUN;
            t->op = O_NONE;
        }
        if(enabled(t))
        {
            switch_to(t);
            return;
        }
    }
}

// decision point before a visible operation of the running fiber
void point(OpK op, int oobj, int extra, const char* what, void* pc)
{
    Fiber* c = cur;
    c->op = op;
    c->oobj = oobj;
    c->mobj = extra;
    c->what = what;
    c->pc = pc;
    if(!exploring && enabled(c) && consec < SPIN_CAP)
    {
        step_check();
        ++consec;
        c->op = O_NONE;
        setH(c, mix(c->H, 0x50));
        return;
    }
    schedule(false);
    cur->op = O_NONE;
    // having passed the point is progress even if the operation itself leaves no trace
    setH(cur, mix(cur->H, 0x50));
}

//---------------------------------------------------------------- memory
inline uptr arena_lo(int i) { return BASE + ARENA_SZ * i; }

void set_live(uptr a, size_t n)
{
    u8* l = live + ((a - BASE) >> 3);
    size_t full = n >> 3;
    memset(l, 8, full);
    if(n & 7) l[full] = n & 7;
}

struct MHdr { u64 size; u64 magic; };
constexpr u64 MLIVE = 0x6d6f64656c4c4956ull, MFREE = 0x6d6f64656c465245ull;

void* model_alloc(size_t n, size_t align)
{
    uptr& b = cur ? cur->bump : init_bump;
    uptr lo = cur ? arena_lo(cur->idx + 1) : arena_lo(0);
    if(!b) b = lo;
    uptr a = b + sizeof(MHdr) + 16;
    if(align < 16) align = 16;
    a = (a + align - 1) & ~(align - 1);
    uptr end = a + ((n + 7) & ~7ull) + 16;
    if(end > lo + ARENA_SZ || n > ARENA_SZ)
    {
        if(n > (1ull << 40)) return nullptr;
        violation("memory", "unbounded memory growth (allocation of %zu bytes)", n);
    }
    MHdr* h = (MHdr*)a - 1;
    h->size = n;
    h->magic = MLIVE;
    set_live(a, n);
    memset((void*)a, 0xCD, n);
    b = end;
    ++live_allocs;
    return (void*)a;
}

bool in_arena(const void* p) { return (uptr)p - BASE < ARENA_TOTAL; }

void model_free(void* p)
{
    uptr a = (uptr)p;
    MHdr* h = (MHdr*)a - 1;
    if(a & 7 || (h->magic != MLIVE && h->magic != MFREE))
    {
        if(cur) violation("memory", "free of an invalid pointer");
        return;
    }
    if(h->magic == MFREE)
    {
        if(cur) violation("memory", "double free of a block of %llu bytes", (unsigned long long)h->size);
        return;
    }
    h->magic = MFREE;
    memset(live + ((a - BASE) >> 3), 0xFD, (h->size + 7) >> 3);
    memset(p, 0xDD, h->size);
    --live_allocs;
}

//---------------------------------------------------------------- race and heap checker
// cell: exec(28) clock(20) fiber(6) write(1) atomic(1) mask(8)
inline u64 mkcell(u32 clock, int f, bool w, bool at, u32 mask)
{
    return (g_exec << 36) | ((u64)(clock & 0xFFFFF) << 16) | ((u64)f << 10) | ((u64)w << 9) | ((u64)at << 8) | mask;
}

[[gnu::noinline]] void report_race(uptr a, unsigned sz, bool w, bool at, u64 x, void* pc, void* oldpc)
{
    violation("data race", "%s%s of %u bytes at %s in thread %d conflicts with earlier unsynchronised %s%s at %s in thread %d (address %s+0x%llx)",
              at ? "atomic " : "", w ? "write" : "read", sz, sym(pc), cur->idx, (x >> 8) & 1 ? "atomic " : "", (x >> 9) & 1 ? "write" : "read", sym(oldpc), (int)((x >> 10) & 63),
              a - BASE < ARENA_TOTAL ? "heap" : a - BASE < MODEL_TOTAL ? "stack" : "global", (unsigned long long)(a - BASE < MODEL_TOTAL ? a - BASE : a - so_base));
}
[[gnu::noinline]] void report_heap(uptr a, unsigned sz, bool w, u8 l, void* pc)
{
    violation("memory", "%s of %u bytes at %s: %s", w ? "write" : "read", sz, sym(pc), l == 0xFD ? "use after free" : "outside of any live heap block");
}

inline void granule(u64* c, u64* pcs, u32 mask, bool w, bool at, void* pc, uptr a, unsigned sz)
{
    Fiber* f = cur;
    u64 me = mkcell(f->vc.c[f->idx], f->idx, w, at, mask);
    int slot = -1;
    u64 ex = g_exec;
    for(int i = 0; i < 4; ++i)
    {
        u64 x = c[i];
        if((x >> 36) != (ex & 0xFFFFFFF)) { if(slot < 0) slot = i; continue; }
        if(x == me) return;
        u32 xm = x & 0xFF;
        if(!(xm & mask)) continue;
        bool xw = (x >> 9) & 1, xa = (x >> 8) & 1;
        int xf = (x >> 10) & 63;
        bool covered = !(xm & ~mask) && (w || !xw) && (!at || xa);
        if(xf == f->idx) { if(covered) slot = i; continue; }
        u32 xc = (x >> 16) & 0xFFFFF;
        if(xc <= (f->vc.c[xf] & 0xFFFFF)) { if(covered) slot = i; continue; }
        if((w || xw) && !(at && xa)) report_race(a, sz, w, at, x, pc, (void*)pcs[i]);
    }
    if(slot < 0) slot = (int)((f->H ^ a >> 3) & 3);
    c[slot] = me;
    pcs[slot] = (u64)pc;
}

inline void access(uptr a, unsigned sz, bool w, bool at, void* pc)
{
    if(__builtin_expect(!cur || !model_ready, 0)) return;
    u64 *c, *p;
    if(a - BASE < MODEL_TOTAL)
    {
        if(a - BASE < ARENA_TOTAL)
        {
            u8* l = live + ((a - BASE) >> 3);
            unsigned last = (unsigned)((a & 7) + sz);
            if(last <= 8) { if(__builtin_expect(l[0] > 8 || l[0] < last, 0)) report_heap(a, sz, w, l[0], pc); }
            else
            {
                for(unsigned k = 0; k * 8 < last; ++k)
                {
                    unsigned need = last - k * 8 > 8 ? 8 : last - k * 8;
                    if(l[k] > 8 || l[k] < need) report_heap(a, sz, w, l[k], pc);
                }
            }
        }
        c = (u64*)(SHADOW + ((a - BASE) >> 3) * 32);
        p = (u64*)(SHADOW_PC + ((a - BASE) >> 3) * 32);
    }
    else if(a - so_lo < so_hi - so_lo)
    {
        c = so_shadow + ((a - so_lo) >> 3) * 4;
        p = so_shadow_pc + ((a - so_lo) >> 3) * 4;
    }
    else return;
    if(__builtin_expect(cur->vc.c[cur->idx] > 0xFFFF0, 0)) return; // the cells cannot hold the clock
    unsigned off = a & 7;
    while(sz)
    {
        unsigned n = 8 - off < sz ? 8 - off : sz;
        granule(c, p, ((1u << n) - 1) << off, w, at, pc, a, n);
        sz -= n; a += n; off = 0; c += 4; p += 4;
    }
}

void check_live(const void* q, unsigned sz, const char* what, void* pc)
{
    uptr a = (uptr)q;
    if(a - BASE < ARENA_TOTAL)
    {
        u8 l = live[(a - BASE) >> 3];
        if(l > 8 || l == 0) violation("memory", "%s on %s memory at %s", what, l == 0xFD ? "freed" : "unallocated", sym(pc));
    }
    (void)sz;
}

//---------------------------------------------------------------- fibers
void exec_reset()
{
    // heap and globals back to the state after loading
    for(int i = 0; i < nf; ++i)
    {
        uptr lo = arena_lo(i + 1);
        if(F[i].bump > lo) memset(live + ((lo - BASE) >> 3), 0, ((F[i].bump - lo) >> 3) + 8);
    }
    if(model_ready)
    {
        for(int i = 0; i < nsegs; ++i) memcpy((void*)segs[i].lo, segs[i].save, segs[i].len);
        memcpy((void*)arena_lo(0), init_save, init_used);
        memcpy(live, init_live_save, (init_used >> 3) + 8);
    }
    u64* eh = (u64*)abi::__cxa_get_globals();
    eh[0] = eh[1] = 0;
    if(tls_size) memcpy(tls_block, tls_init, tls_size);
    nf = 0;
    nobj = 0;
    otab_use(0);
    cur = nullptr;
    ++g_exec;
    g_now = T0;
    g_reads_since_advance = 0;
    keysum = 0;
    exploring = false;
    rem_p = bud_p; rem_t = bud_t; rem_s = bud_s;
    pt = 0;
    depth = 0;
    consec = 0;
    main_done = false;
    leftover_ok = false;
    step_cap = STEP_CAP;
    outcome = 0;
    preempted = 0;
    h_threads = 0;
    obs->clear();
    memset(pslots, 0, sizeof pslots);
    live_allocs = 0;
}

extern "C" void mc_fiber_entry() noexcept;

int new_slot()
{
    for(int i = 0; i < 4096; ++i) if(!pslots[i]) { pslots[i] = true; return i; }
    return 4095;
}

Fiber* new_fiber(void* (*fn)(void*), void* arg)
{
    if(nf >= NF) violation("resource", "too many threads");
    Fiber* f = &F[nf];
    int idx = nf++;
    f->idx = idx;
    f->st = S_RUN;
    f->op = O_NONE;
    f->timed = f->timedout = f->detached = f->joined = f->exited_released = f->killed = false;
    f->oobj = -1; f->mobj = 0;
    f->H = 0;
    f->vc.clear(); f->acqf.clear(); f->relf.clear(); f->has_relf = false;
    f->vc.c[idx] = 1;
    f->eh[0] = f->eh[1] = 0;
    if(!f->tls && tls_size) { Enter e; f->tls = (char*)sys_alloc(tls_size); }
    if(tls_size) memcpy(f->tls, tls_init, tls_size);
    f->slot = new_slot();
    f->fn = fn; f->arg = arg; f->ret = nullptr;
    f->bump = 0;
    f->ndtor = 0;
    memset(f->keys, 0, sizeof f->keys);
    f->what = "start"; f->pc = (void*)fn;
    keysum += mix(0x1000 + idx, f->H);
    uptr top = STACK_BASE + STACK_SZ * (idx + 1) - 64;
    u64* sp = (u64*)(top & ~15ull);
    *--sp = 0;
    *--sp = (u64)&mc_fiber_entry; // return address of mc_switch
    for(int i = 0; i < 6; ++i) *--sp = 0;
    f->sp = sp;
    return f;
}

void finish_fiber()
{
    g_in = 0;
    Fiber* f = cur;
    // visible end of the thread
    f->what = "exit";
    f->st = S_EXITED;
    setH(f, mix(f->H, 0xE0));
    if(f->detached) pslots[f->slot] = false;
    if(f->idx == 0)
    {
        main_done = true;
        exploring = false;
    }
    schedule(false);
    __builtin_unreachable();
}

extern "C" void mc_fiber_entry() noexcept
{
    Fiber* f = cur;
    g_in = 1;
    f->ret = f->fn(f->arg);
    // thread_local destructors
    while(f->ndtor > 0)
    {
        TlsDtor d = f->dtors[--f->ndtor];
        d.fn(d.arg);
    }
    finish_fiber();
}

//---------------------------------------------------------------- atomics
void do_acquire(Obj* o, int mo)
{
    if(mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) cur->vc.join(o->vc);
    else cur->acqf.join(o->vc);
}
void do_release(Obj* o, int mo, bool rmw)
{
    if(!rmw) o->vc.clear();
    if(mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)
    {
        o->vc.join(cur->vc);
        ++cur->vc.c[cur->idx];
    }
    else if(cur->has_relf) o->vc.join(cur->relf);
}

template<typename T> inline bool model_mode() { return cur != nullptr && model_ready; }

template<typename T> T at_load(const volatile T* p, int mo, void* pc)
{
    if(!model_mode<T>()) return *p;
    Enter e;
    point(O_NONE, -1, 0, "atomic load", pc);
    access((uptr)p, sizeof(T), false, true, pc);
    Obj* o = obj((const void*)p, K_ATOMIC);
    do_acquire(o, mo);
    T v = *p;
    hread(cur, o, 0xA1);
    return v;
}
template<typename T> void at_store(volatile T* p, T v, int mo, void* pc)
{
    if(!model_mode<T>()) { *p = v; return; }
    Enter e;
    point(O_NONE, -1, 0, "atomic store", pc);
    access((uptr)p, sizeof(T), true, true, pc);
    Obj* o = obj((const void*)p, K_ATOMIC);
    do_release(o, mo, false);
    *p = v;
    hwrite(cur, o, 0xA2);
}
template<typename T, typename Fn> T at_rmw(volatile T* p, int mo, void* pc, Fn fn)
{
    if(!model_mode<T>()) { T v = *p; *p = fn(v); return v; }
    Enter e;
    point(O_NONE, -1, 0, "atomic rmw", pc);
    access((uptr)p, sizeof(T), true, true, pc);
    Obj* o = obj((const void*)p, K_ATOMIC);
    do_acquire(o, mo);
    do_release(o, mo, true);
    T v = *p;
    *p = fn(v);
    hwrite(cur, o, 0xA3);
    return v;
}
template<typename T> int at_cas(volatile T* p, T* exp, T v, int mo, int fmo, void* pc)
{
    if(!model_mode<T>())
    {
        if(*p == *exp) { *p = v; return 1; }
        *exp = *p;
        return 0;
    }
    Enter e;
    point(O_NONE, -1, 0, "atomic cas", pc);
    Obj* o = obj((const void*)p, K_ATOMIC);
    if(*p == *exp)
    {
        access((uptr)p, sizeof(T), true, true, pc);
        do_acquire(o, mo);
        do_release(o, mo, true);
        *p = v;
        hwrite(cur, o, 0xA4);
        return 1;
    }
    access((uptr)p, sizeof(T), false, true, pc);
    do_acquire(o, fmo);
    *exp = *p;
    hread(cur, o, 0xA5);
    return 0;
}

// acquire / release of a mutex after the decision
void take(Obj* o)
{
    o->owner = cur->idx;
    ++o->count;
    cur->vc.join(o->vc);
    hwrite(cur, o, 0xB1);
}
void drop(Obj* o)
{
    if(--o->count > 0) { hwrite(cur, o, 0xB3); return; }
    o->owner = -1;
    o->vc = cur->vc;
    ++cur->vc.c[cur->idx];
    hwrite(cur, o, 0xB2);
}
bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

int do_lock(pthread_mutex_t* m, void* pc)
{
    check_live(m, sizeof *m, "lock", pc);
    Obj* o = obj(m, K_MUTEX);
    point(O_LOCK, (int)(o - objs), recursive(m), "lock", pc);
    take(o);
    return 0;
}

u64 ts2ns(const timespec* t) { return (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec; }
u64 to_mono(const timespec* t, bool mono)
{
    if(t->tv_sec < 0) return 0;
    u64 v = (u64)t->tv_sec > 9000000000ull ? ~0ull >> 1 : ts2ns(t);
    if(!mono) v = v > REAL_OFF ? v - REAL_OFF : 0;
    return v;
}

int cond_wait(pthread_cond_t* cd, pthread_mutex_t* m, bool timed, u64 deadline, void* pc)
{
    check_live(cd, sizeof *cd, "condition wait", pc);
    check_live(m, sizeof *m, "condition wait", pc);
    Obj* o = obj(cd, K_COND);
    Obj* mo = obj(m, K_MUTEX);
    if(mo->owner != cur->idx) violation("misuse", "condition wait without holding the mutex at %s", sym(pc));
    point(O_NONE, -1, 0, "cond wait", pc);
    Fiber* c = cur;
    int cnt = mo->count;
    mo->count = 1;
    hwrite(c, o, timed ? mix(0xC1, deadline) : 0xC0);
    drop(mo);
    c->st = S_WAIT;
    c->timed = timed;
    c->timedout = false;
    c->deadline = deadline;
    c->oobj = (int)(o - objs);
    c->mobj = (int)(mo - objs);
    if(o->nwait < NF) o->wait[o->nwait++] = (u8)c->idx;
    c->what = timed ? "timed cond wait" : "cond wait";
    c->pc = pc;
    schedule(false);
    c = cur;
    c->op = O_NONE;
    c->timed = false;
    take(mo);
    mo->count = cnt;
    return c->timedout ? ETIMEDOUT : 0;
}

void wake(Obj* o, int k)
{
    Fiber* t = &F[o->wait[k]];
    for(int i = k + 1; i < o->nwait; ++i) o->wait[i - 1] = o->wait[i];
    --o->nwait;
    t->st = S_RUN;
    t->op = t->mobj < 0 ? O_NONE : O_LOCK;
    t->oobj = t->mobj;
    t->mobj = 0;
    t->timed = false;
    setH(t, mix(t->H, 0xC5, cur->H));
}

int data_choice(int n, u64 tag)
{
    if(n <= 1) return 0;
    if(!exploring && !replaying && false) return 0;
    std::vector<Opt> o;
    for(int i = 0; i < n; ++i) o.push_back({OT_DATA, (u8)i, 0, 0, 0});
    ++pt;
    ++g_progress;
    u64 key = mix(keysum, mix(cur->idx, tag, (u64)n), g_now);
    if(!key) key = 1;
    int v = decide(o, key);
    setH(cur, mix(cur->H, 0xD0 + tag, (u64)v));
    return v;
}

void cond_wake(pthread_cond_t* cd, bool all, void* pc)
{
    check_live(cd, sizeof *cd, "condition notify", pc);
    Obj* o = obj(cd, K_COND);
    point(O_NONE, -1, 0, all ? "broadcast" : "signal", pc);
    hwrite(cur, o, all ? 0xC3 : 0xC2);
    if(all) while(o->nwait) wake(o, 0);
    else if(o->nwait) wake(o, exploring ? data_choice(o->nwait, 7) : 0);
}

void do_sleep(u64 deadline, void* pc)
{
    point(O_NONE, -1, 0, "sleep", pc);
    Fiber* c = cur;
    c->st = S_SLEEP;
    c->timed = true;
    c->timedout = false;
    c->deadline = deadline;
    c->what = "sleep";
    c->pc = pc;
    setH(c, mix(c->H, 0xF0, deadline));
    schedule(false);
    cur->timed = false;
    cur->op = O_NONE;
}

Fiber* by_pthread(pthread_t t)
{
    // newest fiber with that slot
    for(int i = nf - 1; i >= 0; --i)
        if((uptr)t == 0x700000000000ull + (uptr)F[i].slot * 0x1000) return &F[i];
    return nullptr;
}
} // namespace

//==================================================================== exported: malloc
EXPORT void* malloc(size_t n)
{
    if(g_in || loading_model) return model_alloc(n, 16);
    return sys_alloc(n);
}
EXPORT void free(void* p)
{
    if(!p) return;
    if(in_arena(p)) { int o = g_in; g_in = 0; model_free(p); g_in = o; return; }
    sys_release(p);
}
EXPORT void* calloc(size_t a, size_t b)
{
    size_t n = a * b;
    void* p = malloc(n);
    if(p) memset(p, 0, n);
    return p;
}
EXPORT void* realloc(void* p, size_t n)
{
    if(!p) return malloc(n);
    size_t old = in_arena(p) ? ((MHdr*)p - 1)->size : ((SysHdr*)p - 1)->size;
    void* q = malloc(n);
    if(!q) return nullptr;
    memcpy(q, p, old < n ? old : n);
    free(p);
    return q;
}
EXPORT void* memalign(size_t al, size_t n)
{
    if(g_in || loading_model) return model_alloc(n, al);
    if(al <= 16) return sys_alloc(n);
    // engine and loader: over-allocate, never returned to the free list
    char* p = (char*)mmap(0, n + al + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    uptr a = ((uptr)p + 4096 + al - 1) & ~(al - 1);
    SysHdr* h = (SysHdr*)a - 1;
    h->size = n; h->cls = 63;
    return (void*)a;
}
EXPORT void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXPORT int posix_memalign(void** r, size_t al, size_t n) { *r = memalign(al, n); return *r ? 0 : ENOMEM; }
EXPORT void* valloc(size_t n) { return memalign(4096, n); }
EXPORT size_t malloc_usable_size(void* p)
{
    if(!p) return 0;
    return in_arena(p) ? ((MHdr*)p - 1)->size : ((SysHdr*)p - 1)->size;
}

//==================================================================== exported: tsan callbacks
#define RW(N)                                                                                       \
    EXPORT void __tsan_read##N(void* a) { access((uptr)a, N, false, false, PC()); }                 \
    EXPORT void __tsan_write##N(void* a) { access((uptr)a, N, true, false, PC()); }                 \
    EXPORT void __tsan_unaligned_read##N(void* a) { access((uptr)a, N, false, false, PC()); }       \
    EXPORT void __tsan_unaligned_write##N(void* a) { access((uptr)a, N, true, false, PC()); }       \
    EXPORT void __tsan_volatile_read##N(void* a) { access((uptr)a, N, false, false, PC()); }        \
    EXPORT void __tsan_volatile_write##N(void* a) { access((uptr)a, N, true, false, PC()); }        \
    EXPORT void __tsan_read_write##N(void* a) { access((uptr)a, N, true, false, PC()); }            \
    EXPORT void __tsan_unaligned_read_write##N(void* a) { access((uptr)a, N, true, false, PC()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* a, unsigned long n) { for(unsigned long i = 0; i < n; i += 64) access((uptr)a + i, (unsigned)(n - i < 64 ? n - i : 64), false, false, PC()); }
EXPORT void __tsan_write_range(void* a, unsigned long n) { for(unsigned long i = 0; i < n; i += 64) access((uptr)a + i, (unsigned)(n - i < 64 ? n - i : 64), true, false, PC()); }
EXPORT void __tsan_vptr_update(void** a, void* v) { if(*a != v) access((uptr)a, 8, true, false, PC()); }
EXPORT void __tsan_vptr_read(void** a) { access((uptr)a, 8, false, false, PC()); }
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_init() {}
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}
static void range(const void* a, size_t n, bool w, void* pc)
{
    for(size_t i = 0; i < n; i += 64) access((uptr)a + i, (unsigned)(n - i < 64 ? n - i : 64), w, false, pc);
}
EXPORT void* __tsan_memcpy(void* d, const void* s, size_t n) { range(s, n, false, PC()); range(d, n, true, PC()); return memcpy(d, s, n); }
EXPORT void* __tsan_memmove(void* d, const void* s, size_t n) { range(s, n, false, PC()); range(d, n, true, PC()); return memmove(d, s, n); }
EXPORT void* __tsan_memset(void* d, int c, size_t n) { range(d, n, true, PC()); return memset(d, c, n); }

// the model object is linked with --wrap for these
EXPORT void* __wrap_memcpy(void* d, const void* s, size_t n) { range(s, n, false, PC()); range(d, n, true, PC()); return memcpy(d, s, n); }
EXPORT void* __wrap_memmove(void* d, const void* s, size_t n) { range(s, n, false, PC()); range(d, n, true, PC()); return memmove(d, s, n); }
EXPORT void* __wrap_memset(void* d, int c, size_t n) { range(d, n, true, PC()); return memset(d, c, n); }

#define ATOM(B, T)                                                                                                          \
    EXPORT T __tsan_atomic##B##_load(const volatile T* p, int mo) { return at_load<T>(p, mo, PC()); }                       \
    EXPORT void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { at_store<T>(p, v, mo, PC()); }                       \
    EXPORT T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, PC(), [=](T) { return v; }); } \
    EXPORT T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, PC(), [=](T x) { return (T)(x + v); }); } \
    EXPORT T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, PC(), [=](T x) { return (T)(x - v); }); } \
    EXPORT T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, PC(), [=](T x) { return (T)(x & v); }); } \
    EXPORT T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, PC(), [=](T x) { return (T)(x | v); }); } \
    EXPORT T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, PC(), [=](T x) { return (T)(x ^ v); }); } \
    EXPORT T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, PC(), [=](T x) { return (T)~(x & v); }); } \
    EXPORT int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int f) { return at_cas<T>(p, e, v, mo, f, PC()); } \
    EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int f) { return at_cas<T>(p, e, v, mo, f, PC()); } \
    EXPORT T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int f) { at_cas<T>(p, &e, v, mo, f, PC()); return e; }
ATOM(8, u8) ATOM(16, uint16_t) ATOM(32, u32) ATOM(64, u64)
EXPORT void __tsan_atomic_thread_fence(int mo)
{
    if(!cur) return;
    if(mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) cur->vc.join(cur->acqf);
    if(mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) { cur->relf = cur->vc; cur->has_relf = true; ++cur->vc.c[cur->idx]; }
}
EXPORT void __tsan_atomic_signal_fence(int) {}

//==================================================================== exported: reference counts
EXPORT int mc_refcount_add(volatile int* p, int v)
{
    if(!cur || !model_ready) { int o = *p; *p = o + v; return o; }
    Enter e;
    void* pc = PC();
    if(rc_points) point(O_NONE, -1, 0, "refcount", pc);
    check_live((const void*)p, 4, "reference count update", pc);
    access((uptr)p, 4, true, true, pc);
    Obj* o = obj((const void*)p, K_ATOMIC);
    int old = *p;
    *p = old + v;
    if(v < 0)
    {
        o->vc.join(cur->vc);
        ++cur->vc.c[cur->idx];
        if(old + v == 0)
        {
            cur->vc.join(o->vc);
            hwrite(cur, o, 0xAC);
            return old;
        }
        if(old + v < 0) violation("memory", "reference count below zero at %s", sym(pc));
    }
    hread(cur, o, v < 0 ? 0xAB : 0xAA);
    return old;
}

//==================================================================== exported: pthread
EXPORT pthread_t pthread_self(void) noexcept
{
    if(!cur) return (pthread_t)0x6ff000000000ull;
    return (pthread_t)(0x700000000000ull + (uptr)cur->slot * 0x1000);
}
EXPORT int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }
EXPORT int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept
{
    if(!cur) return EAGAIN;
    Enter e;
    void* pc = PC();
    Fiber* f = new_fiber(fn, arg);
    if(a)
    {
        int ds = 0;
        pthread_attr_getdetachstate(a, &ds);
        if(ds == PTHREAD_CREATE_DETACHED) f->detached = true;
    }
    f->vc = cur->vc;
    f->vc.c[f->idx] = 1;
    ++cur->vc.c[cur->idx];
    setH(cur, mix(cur->H, 0xE1, h_threads, (u64)f->slot));
    h_threads = cur->H;
    setH(f, mix(cur->H, 0xE2));
    *t = (pthread_t)(0x700000000000ull + (uptr)f->slot * 0x1000);
    point(O_NONE, -1, 0, "after create", pc);
    return 0;
}
EXPORT int pthread_join(pthread_t t, void** r)
{
    if(!cur) return EINVAL;
    Enter e;
    void* pc = PC();
    Fiber* f = by_pthread(t);
    if(!f || f->detached || f->joined) { if(!f) return ESRCH; return EINVAL; }
    if(f == cur) return EDEADLK;
    point(O_JOIN, f->idx, 0, "join", pc);
    f->joined = true;
    pslots[f->slot] = false;
    cur->vc.join(f->vc);
    setH(cur, mix(cur->H, 0xE3, f->H, h_threads));
    h_threads = cur->H;
    if(r) *r = f->ret;
    return 0;
}
EXPORT int pthread_detach(pthread_t t) noexcept
{
    if(!cur) return 0;
    Enter e;
    Fiber* f = by_pthread(t);
    if(!f || f->detached) return EINVAL;
    f->detached = true;
    if(f->st == S_EXITED) pslots[f->slot] = false;
    setH(cur, mix(cur->H, 0xE4, h_threads));
    h_threads = cur->H;
    return 0;
}
EXPORT void pthread_exit(void* r)
{
    if(!cur) _exit(3);
    cur->ret = r;
    finish_fiber();
    __builtin_unreachable();
}
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept
{
    memset(m, 0, sizeof *m);
    if(a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
    if(cur) { Enter e; Obj* o = obj(m, K_MUTEX); o->owner = -1; o->count = 0; }
    return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
{
    if(cur) { Enter e; Obj* o = obj(m, K_MUTEX); if(o->owner >= 0) violation("misuse", "destruction of a locked mutex"); }
    return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    if(!cur) return 0;
    Enter e;
    return do_lock(m, PC());
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    if(!cur) return 0;
    Enter e;
    void* pc = PC();
    check_live(m, sizeof *m, "trylock", pc);
    Obj* o = obj(m, K_MUTEX);
    point(O_NONE, -1, 0, "trylock", pc);
    if(o->owner < 0 || (o->owner == cur->idx && recursive(m))) { take(o); return 0; }
    hread(cur, o, 0xB4);
    return EBUSY;
}
static int timedlock(pthread_mutex_t* m, u64 deadline, void* pc)
{
    check_live(m, sizeof *m, "timedlock", pc);
    Obj* o = obj(m, K_MUTEX);
    cur->timed = true;
    cur->timedout = false;
    cur->deadline = deadline;
    point(O_TIMEDLOCK, (int)(o - objs), recursive(m), "timedlock", pc);
    cur->timed = false;
    if(o->owner < 0) { take(o); return 0; }
    hread(cur, o, 0xB5);
    return ETIMEDOUT;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) noexcept { if(!cur) return 0; Enter e; return timedlock(m, to_mono(t, false), PC()); }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) noexcept { if(!cur) return 0; Enter e; return timedlock(m, to_mono(t, c == CLOCK_MONOTONIC), PC()); }
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    if(!cur) return 0;
    Enter e;
    void* pc = PC();
    check_live(m, sizeof *m, "unlock", pc);
    Obj* o = obj(m, K_MUTEX);
    if(o->owner != cur->idx) violation("misuse", "unlock of a mutex the thread does not own at %s", sym(pc));
    drop(o);
    return 0;
}
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) noexcept
{
    memset(c, 0, sizeof *c);
    if(cur)
    {
        Enter e;
        Obj* o = obj(c, K_COND);
        clockid_t k = CLOCK_REALTIME;
        if(a) pthread_condattr_getclock(a, &k);
        o->rt_clock_mono = k == CLOCK_MONOTONIC;
    }
    return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t* c) noexcept
{
    if(cur)
    {
        Enter e;
        check_live(c, sizeof *c, "condition destroy", PC());
        Obj* o = obj(c, K_COND);
        if(o->nwait) violation("misuse", "destruction of a condition variable with waiting threads at %s", sym(PC()));
    }
    return 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if(!cur) return 0; Enter e; return cond_wait(c, m, false, 0, PC()); }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
{
    if(!cur) return 0;
    Enter e;
    return cond_wait(c, m, true, to_mono(t, obj(c, K_COND)->rt_clock_mono), PC());
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t)
{
    if(!cur) return 0;
    Enter e;
    return cond_wait(c, m, true, to_mono(t, k == CLOCK_MONOTONIC), PC());
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) noexcept { if(!cur) return 0; Enter e; cond_wake(c, false, PC()); return 0; }
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if(!cur) return 0; Enter e; cond_wake(c, true, PC()); return 0; }

EXPORT int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept { memset(l, 0, sizeof *l); return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
static void rd_take(Obj* o)
{
    ++o->readers;
    cur->vc.join(o->vc);
    hwrite(cur, o, 0xB6);
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept
{
    if(!cur) return 0;
    Enter e;
    check_live(l, 8, "rdlock", PC());
    Obj* o = obj(l, K_RW);
    point(O_RDLOCK, (int)(o - objs), 0, "rdlock", PC());
    rd_take(o);
    return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept
{
    if(!cur) return 0;
    Enter e;
    check_live(l, 8, "wrlock", PC());
    Obj* o = obj(l, K_RW);
    point(O_WRLOCK, (int)(o - objs), 0, "wrlock", PC());
    take(o);
    return 0;
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept
{
    if(!cur) return 0;
    Enter e;
    Obj* o = obj(l, K_RW);
    point(O_NONE, -1, 0, "tryrdlock", PC());
    if(o->owner >= 0) { hwrite(cur, o, 0xB7); return EBUSY; }
    rd_take(o);
    return 0;
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept
{
    if(!cur) return 0;
    Enter e;
    Obj* o = obj(l, K_RW);
    point(O_NONE, -1, 0, "trywrlock", PC());
    if(o->owner >= 0 || o->readers) { hwrite(cur, o, 0xB8); return EBUSY; }
    take(o);
    return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept
{
    if(!cur) return 0;
    Enter e;
    Obj* o = obj(l, K_RW);
    if(o->owner == cur->idx) { drop(o); return 0; }
    if(o->readers <= 0) violation("misuse", "unlock of a read-write lock that is not held");
    --o->readers;
    o->vc.join(cur->vc);
    ++cur->vc.c[cur->idx];
    hwrite(cur, o, 0xB9);
    return 0;
}
EXPORT int pthread_spin_init(pthread_spinlock_t* l, int) noexcept { *l = 0; return 0; }
EXPORT int pthread_spin_destroy(pthread_spinlock_t*) noexcept { return 0; }
EXPORT int pthread_spin_lock(pthread_spinlock_t* l) noexcept
{
    if(!cur) return 0;
    Enter e;
    Obj* o = obj((void*)l, K_MUTEX);
    point(O_LOCK, (int)(o - objs), 0, "spin lock", PC());
    take(o);
    return 0;
}
EXPORT int pthread_spin_trylock(pthread_spinlock_t* l) noexcept
{
    if(!cur) return 0;
    Enter e;
    Obj* o = obj((void*)l, K_MUTEX);
    point(O_NONE, -1, 0, "spin trylock", PC());
    if(o->owner < 0) { take(o); return 0; }
    hread(cur, o, 0xB4);
    return EBUSY;
}
EXPORT int pthread_spin_unlock(pthread_spinlock_t* l) noexcept { if(!cur) return 0; Enter e; drop(obj((void*)l, K_MUTEX)); return 0; }
EXPORT int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    if(!cur) { if(!*(int*)o) { *(int*)o = 2; fn(); } return 0; }
    {
        Enter e;
        Obj* ob = obj(o, K_ONCE);
        if(*(int*)o == 2) { cur->vc.join(ob->vc); hread(cur, ob, 0xBA); return 0; }
        if(ob->owner >= 0) { point(O_ONCE, (int)(ob - objs), 0, "once", PC()); cur->vc.join(ob->vc); if(*(int*)o == 2) return 0; }
        ob->owner = cur->idx;
    }
    fn();
    Enter e;
    Obj* ob = obj(o, K_ONCE);
    ob->owner = -1;
    *(int*)o = 2;
    ob->vc = cur->vc;
    ++cur->vc.c[cur->idx];
    hwrite(cur, ob, 0xBB);
    return 0;
}
// statics of other libraries are made once for all executions, so they take no part in the exploration
static bool of_model(const void* g) { return (u64)g >= so_lo && (u64)g < so_hi; }
EXPORT int __cxa_guard_acquire(u64* g)
{
    if(!of_model(g)) return !*(volatile char*)g;
    if(*(volatile char*)g)
    {
        if(cur) { Enter e; Obj* o = obj(g, K_ONCE); cur->vc.join(o->vc); }
        return 0;
    }
    if(!cur) return 1;
    Enter e;
    Obj* o = obj(g, K_ONCE);
    point(O_ONCE, (int)(o - objs), 0, "static init", PC());
    if(*(volatile char*)g) { cur->vc.join(o->vc); hread(cur, o, 0xBC); return 0; }
    o->owner = cur->idx;
    hwrite(cur, o, 0xBD);
    return 1;
}
EXPORT void __cxa_guard_release(u64* g)
{
    *(char*)g = 1;
    if(!cur || !of_model(g)) return;
    Enter e;
    Obj* o = obj(g, K_ONCE);
    o->owner = -1;
    o->vc = cur->vc;
    ++cur->vc.c[cur->idx];
    hwrite(cur, o, 0xBE);
}
EXPORT void __cxa_guard_abort(u64* g)
{
    if(!cur || !of_model(g)) return;
    Enter e;
    Obj* o = obj(g, K_ONCE);
    o->owner = -1;
    hwrite(cur, o, 0xBF);
}
// destructors of statics first reached in an execution: the process outlives the execution, they never run
// (and the list of the C library must not grow into memory that is reset)
EXPORT int __cxa_atexit(void (*fn)(void*), void* arg, void* dso) noexcept
{
    if(cur || loading_model) return 0;
    static auto real = (int (*)(void (*)(void*), void*, void*))dlsym(RTLD_NEXT, "__cxa_atexit");
    return real(fn, arg, dso);
}
static int tls_atexit(void (*fn)(void*), void* arg)
{
    if(!cur) return 0;
    if(cur->ndtor < 64) cur->dtors[cur->ndtor++] = {fn, arg};
    return 0;
}
EXPORT int __cxa_thread_atexit(void (*fn)(void*), void* arg, void*) noexcept { return tls_atexit(fn, arg); }
EXPORT int __cxa_thread_atexit_impl(void (*fn)(void*), void* arg, void*) { return tls_atexit(fn, arg); }

// POSIX semaphores
EXPORT int sem_init(sem_t* s, int, unsigned v) noexcept { if(cur) { Enter e; obj(s, K_SEM)->count = (int)v; } return 0; }
EXPORT int sem_destroy(sem_t*) noexcept { return 0; }
EXPORT int sem_post(sem_t* s) noexcept
{
    if(!cur) return 0;
    Enter e;
    Obj* o = obj(s, K_SEM);
    point(O_NONE, -1, 0, "sem post", PC());
    ++o->count;
    o->vc.join(cur->vc);
    ++cur->vc.c[cur->idx];
    hwrite(cur, o, 0xBF1);
    return 0;
}
EXPORT int sem_wait(sem_t* s)
{
    if(!cur) return 0;
    Enter e;
    Obj* o = obj(s, K_SEM);
    point(O_SEM, (int)(o - objs), 0, "sem wait", PC());
    --o->count;
    cur->vc.join(o->vc);
    hwrite(cur, o, 0xBF2);
    return 0;
}
EXPORT int sem_trywait(sem_t* s) noexcept
{
    if(!cur) return 0;
    Enter e;
    Obj* o = obj(s, K_SEM);
    point(O_NONE, -1, 0, "sem trywait", PC());
    if(o->count <= 0) { hread(cur, o, 0xBF3); errno = EAGAIN; return -1; }
    --o->count;
    cur->vc.join(o->vc);
    hwrite(cur, o, 0xBF2);
    return 0;
}

EXPORT int sem_clockwait(sem_t* s, clockid_t k, const timespec* t)
{
    if(!cur) return 0;
    Enter e;
    Obj* o = obj(s, K_SEM);
    cur->timed = true;
    cur->timedout = false;
    cur->deadline = to_mono(t, k == CLOCK_MONOTONIC);
    point(O_TIMEDSEM, (int)(o - objs), 0, "timed sem wait", PC());
    cur->timed = false;
    if(o->count <= 0) { hread(cur, o, 0xBF4); errno = ETIMEDOUT; return -1; }
    --o->count;
    cur->vc.join(o->vc);
    hwrite(cur, o, 0xBF2);
    return 0;
}
EXPORT int sem_timedwait(sem_t* s, const timespec* t) { return sem_clockwait(s, CLOCK_REALTIME, t); }

// futexes: std::future, std::promise and std::async of the standard library are built on them
static long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if(r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
static long futex(int* a, int op, int val, const timespec* t, int set, void* pc)
{
    (void)set;
    bool real = op & FUTEX_CLOCK_REALTIME;
    op &= FUTEX_CMD_MASK;
    check_live(a, 4, "futex", pc);
    Obj* o = obj(a, K_COND);
    if(op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
    {
        point(O_NONE, -1, 0, "futex wake", pc);
        o->vc.join(cur->vc);
        ++cur->vc.c[cur->idx];
        hwrite(cur, o, 0xC7);
        int n = 0;
        while(o->nwait && n < val) { wake(o, 0); ++n; }
        return n;
    }
    if(op != FUTEX_WAIT && op != FUTEX_WAIT_BITSET) violation("resource", "unsupported futex operation %d", op);
    point(O_NONE, -1, 0, "futex wait", pc);
    if(*(volatile int*)a != val) { hread(cur, o, 0xC8); errno = EAGAIN; return -1; }
    Fiber* c = cur;
    hwrite(c, o, 0xC9);
    c->st = S_WAIT;
    c->timed = t != nullptr;
    c->timedout = false;
    if(t) c->deadline = op == FUTEX_WAIT ? g_now + ts2ns(t) : to_mono(t, !real);
    c->oobj = (int)(o - objs);
    c->mobj = -1;
    if(o->nwait < NF) o->wait[o->nwait++] = (u8)c->idx;
    c->what = "futex wait";
    c->pc = pc;
    schedule(false);
    c = cur;
    c->op = O_NONE;
    c->timed = false;
    c->vc.join(o->vc);
    if(c->timedout) { errno = ETIMEDOUT; return -1; }
    return 0;
}
EXPORT long syscall(long n, ...) noexcept
{
    va_list v;
    va_start(v, n);
    long a[6];
    for(auto& x : a) x = va_arg(v, long);
    va_end(v);
    if(n == SYS_futex && cur)
    {
        Enter e;
        return futex((int*)a[0], (int)a[1], (int)a[2], (const timespec*)a[3], (int)a[5], PC());
    }
    return raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

//==================================================================== exported: time
EXPORT int clock_gettime(clockid_t c, timespec* t) noexcept
{
    if(!cur) return (int)raw_syscall(SYS_clock_gettime, (long)c, (long)t, 0, 0, 0, 0);
    Enter e;
    if(++g_reads_since_advance > 64) { g_now += 1000; g_reads_since_advance = 0; }
    u64 v = g_now;
    if(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) v += REAL_OFF;
    t->tv_sec = (time_t)(v / 1000000000ull);
    t->tv_nsec = (long)(v % 1000000000ull);
    setH(cur, mix(cur->H, 0xF5, v));
    return 0;
}
EXPORT int gettimeofday(timeval* tv, void*) noexcept
{
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
EXPORT time_t time(time_t* r) noexcept
{
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if(r) *r = t.tv_sec;
    return t.tv_sec;
}
EXPORT int nanosleep(const timespec* t, timespec*)
{
    if(!cur) return 0;
    Enter e;
    do_sleep(g_now + ts2ns(t), PC());
    return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec*)
{
    if(!cur) return 0;
    Enter e;
    do_sleep(flags & TIMER_ABSTIME ? to_mono(t, c == CLOCK_MONOTONIC) : g_now + ts2ns(t), PC());
    return 0;
}
EXPORT int usleep(useconds_t u)
{
    if(!cur) return 0;
    Enter e;
    do_sleep(g_now + u * 1000ull, PC());
    return 0;
}
EXPORT unsigned sleep(unsigned s)
{
    if(!cur) return 0;
    Enter e;
    do_sleep(g_now + s * 1000000000ull, PC());
    return 0;
}
EXPORT int sched_yield() noexcept
{
    if(!cur) return 0;
    Enter e;
    cur->op = O_NONE;
    cur->what = "yield";
    cur->pc = PC();
    schedule(true);
    setH(cur, mix(cur->H, 0xF6));
    return 0;
}
EXPORT int get_nprocs() noexcept { return 2; }
EXPORT unsigned _ZNSt6thread20hardware_concurrencyEv() { return 2; }

//==================================================================== exported: failure paths
EXPORT void __assert_fail(const char* ex, const char* file, unsigned line, const char* fn) noexcept
{
    const char* b = strrchr(file, '/');
    violation("assertion", "%s in %s (%s:%u)", ex, fn, b ? b + 1 : file, line);
}
EXPORT void abort() noexcept
{
    if(cur) violation("abort", "abort() called");
    _exit(134);
}
EXPORT void __stack_chk_fail() { violation("memory", "stack smashing detected"); }

//==================================================================== exported: harness interface
EXPORT int mc_choose(int n, const char* what)
{
    if(!cur) return 0;
    Enter e;
    int v = data_choice(n, 0x100);
    if(verbose) fprintf(eng_err, "  [%5u] thread %d chooses %s = %d of %d\n", pt, cur->idx, what, v, n);
    return v;
}
EXPORT void mc_explore(int on)
{
    exploring = on;
}
EXPORT void mc_settle()
{
    if(!cur) return;
    Enter e;
    cur->op = O_SETTLE;
    cur->what = "settle";
    cur->pc = PC();
    schedule(false);
    cur->op = O_NONE;
    u64 h = mix(cur->H, 0x5E);
    for(int i = 0; i < nf; ++i) h += mix(0x5F, i, F[i].H);
    setH(cur, h);
}
EXPORT void mc_point(const char* what)
{
    if(!cur) return;
    Enter e;
    point(O_NONE, -1, 0, what, PC());
    setH(cur, mix(cur->H, 0x51));
}
EXPORT void mc_yield() { sched_yield(); }
EXPORT void mc_fail(const char* fmt, ...)
{
    g_in = 0;
    char b[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    violation("property", "%s", b);
}
EXPORT void mc_observe(const char* fmt, ...)
{
    Enter e;
    char b[500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    *obs += b;
    *obs += ' ';
}
EXPORT void mc_note(const char* fmt, ...)
{
    if(!verbose) return;
    Enter e;
    char b[500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    fprintf(eng_err, "  [%5u] thread %d: %s\n", pt, cur ? cur->idx : -1, b);
}
EXPORT uint64_t mc_now()
{
    if(cur) { Enter e; setH(cur, mix(cur->H, 0xF5, g_now)); }
    return g_now;
}
EXPORT void mc_advance(uint64_t ns)
{
    if(!cur) return;
    Enter e;
    g_now += ns;
    g_reads_since_advance = 0;
    setH(cur, mix(cur->H, 0xF7, ns));
}
EXPORT int mc_self() { return cur ? cur->idx : -1; }
EXPORT int mc_preempted_count() { return preempted; }
EXPORT void mc_allow_leftover(int on) { leftover_ok = on; }
EXPORT void mc_max_steps(unsigned n) { step_cap = n; }
EXPORT unsigned mc_steps() { return pt; }
EXPORT void mc_var(const void* addr, int kind)
{
    if(!cur) return;
    Enter e;
    Obj* o = obj(addr, K_VAR);
    if(kind == 1) hwrite(cur, o, 0x61);
    else hread(cur, o, kind == 0 ? 0x62 : 0x63);
}
EXPORT int mc_thorough() { return thorough; }
EXPORT int mc_live_fibers()
{
    int n = 0;
    for(int i = 0; i < nf; ++i) n += F[i].st != S_EXITED;
    return n;
}
EXPORT uint64_t mc_live_allocs() { return live_allocs; }
EXPORT void mc_quiet_alloc(int) {}
EXPORT int mc_running() { return cur != nullptr; }

//==================================================================== engine
namespace
{
void on_terminate()
{
    g_in = 0;
    const char* n = "?";
    if(std::type_info* t = abi::__cxa_current_exception_type()) n = t->name();
    violation("terminate", "std::terminate called (uncaught exception of type %s)", n);
}

volatile u64 wd_last = 0, wd_exec = 0;
volatile int wd_same = 0;
void on_signal(int s, siginfo_t* si, void* uc)
{
    if(s == SIGALRM)
    {
        if(cur && g_in && wd_last == g_progress && wd_exec == g_exec)
        {
            if(++wd_same >= 10)
            {
                wd_same = 0;
                violation("hang", "the thread computes forever without reaching a synchronisation operation");
            }
        }
        else wd_same = 0;
        wd_last = g_progress;
        wd_exec = g_exec;
        return;
    }
    if(cur && engine_sp)
    {
        void* pc = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
        violation("crash", "signal %d (%s) accessing %p at %s", s, strsignal(s), si->si_addr, sym(pc));
    }
    fprintf(eng_err, "model checker crashed: signal %d\n", s);
    signal(s, SIG_DFL);
    raise(s);
}

mc::Scenario* scen;
void* main_entry(void*)
{
    scen->fn();
    return nullptr;
}

void run_one()
{
    exec_reset();
    prefix_pt = nodes->empty() ? 0 : nodes->back().pt;
    Fiber* f = new_fiber(main_entry, nullptr);
    cur = f;
    if(tls_size) memcpy(tls_block, f->tls, tls_size);
    mc_switch(&engine_sp, f->sp);
    g_in = 0;
    ++st_exec;
    if(pt > st_maxpt) st_maxpt = pt;
    if((u64)preempted > st_preempt_max) st_preempt_max = (u64)preempted;
    if(outcome == 1) ++st_complete;
    if(outcome == 2) ++st_pruned;
    cur = nullptr;
}

double now_s()
{
    timespec t;
    raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t, 0, 0, 0, 0);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}

std::string jesc(const std::string& s)
{
    std::string r;
    for(char c : s)
    {
        if(c == '"' || c == '\\') { r += '\\'; r += c; }
        else if((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

int load_cb(dl_phdr_info* i, size_t, void* data)
{
    if(i->dlpi_addr != so_base) return 0;
    (void)data;
    so_lo = ~0ull; so_hi = 0;
    for(int k = 0; k < i->dlpi_phnum; ++k)
    {
        const ElfW(Phdr)& p = i->dlpi_phdr[k];
        if(p.p_type == PT_LOAD && (p.p_flags & PF_W))
        {
            uptr lo = i->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
            segs[nsegs++] = {lo, hi - lo, nullptr};
            if(lo < so_lo) so_lo = lo;
            if(hi > so_hi) so_hi = hi;
        }
        if(p.p_type == PT_TLS && p.p_memsz)
        {
            struct { unsigned long m, o; } ti = {i->dlpi_tls_modid, 0};
            extern void* tls_addr(void*);
            tls_block = (char*)tls_addr(&ti);
            tls_size = p.p_memsz;
            tls_init = (char*)sys_alloc(tls_size);
            memset(tls_init, 0, tls_size);
            memcpy(tls_init, (void*)(i->dlpi_addr + p.p_vaddr), p.p_filesz);
        }
    }
    so_lo &= ~7ull;
    return 1;
}
extern "C" void* __tls_get_addr(void*);
void* tls_addr(void* p) { return __tls_get_addr(p); }

void load(const char* path)
{
    auto map = [](uptr a, size_t n)
    {
        void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if(p != (void*)a) { fprintf(eng_err, "cannot map model memory\n"); _exit(3); }
    };
    map(BASE, MODEL_TOTAL);
    for(int i = 0; i < NF; ++i) mprotect((void*)(STACK_BASE + STACK_SZ * i), 4096, PROT_NONE);
    map(SHADOW, MODEL_TOTAL * 4);
    map(SHADOW_PC, MODEL_TOTAL * 4);
    map(LIVE, MODEL_TOTAL / 8 + 4096);
    objs = (Obj*)mmap(0, sizeof(Obj) * MAXOBJ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for(int i = 0; i < 3; ++i) otabs[i] = (OEnt*)mmap(0, sizeof(OEnt) * OTABS[i], PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    otab_use(0);
    loading_model = true;
    void* h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
    loading_model = false;
    if(!h) { fprintf(eng_err, "dlopen: %s\n", dlerror()); _exit(3); }
    link_map* lm = nullptr;
    dlinfo(h, RTLD_DI_LINKMAP, &lm);
    so_base = lm->l_addr;
    dl_iterate_phdr(load_cb, nullptr);
    auto list = (mc::Scenario * &(*)()) dlsym(h, "_ZN2mc13scenario_listEv");
    if(!list) { fprintf(eng_err, "no scenario list\n"); _exit(3); }
    scen = list();
    for(int i = 0; i < nsegs; ++i)
    {
        segs[i].save = (char*)sys_alloc(segs[i].len);
        memcpy(segs[i].save, (void*)segs[i].lo, segs[i].len);
    }
    init_used = init_bump ? init_bump - arena_lo(0) : 0;
    init_save = (char*)sys_alloc(init_used + 16);
    memcpy(init_save, (void*)arena_lo(0), init_used);
    init_live_save = (char*)sys_alloc((init_used >> 3) + 16);
    memcpy(init_live_save, live, (init_used >> 3) + 8);
    size_t n = (so_hi - so_lo + 16) / 8 * 32;
    so_shadow = (u64*)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    so_shadow_pc = (u64*)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    model_ready = true;
}

void warm_up()
{
    // lazily allocated things in the C++ runtime must not land in model memory
    try { throw 1; } catch(...) {}
    try { std::rethrow_exception(std::make_exception_ptr(2)); } catch(...) {}
}

const char* ot_names[] = {"run", "fire", "spur", "data"};

void write_replay(const char* path, const std::string& msg)
{
    FILE* f = fopen(path, "w");
    if(!f) return;
    fprintf(f, "scenario %s\nbudget %d %d %d\nunbounded %d\nrc %d\nthorough %d\nmessage %s\nchoices", scen->name, bud_p, bud_t, bud_s, unbounded, rc_points, thorough, msg.c_str());
    for(size_t i = 0; i < depth && i < nodes->size(); ++i) fprintf(f, " %d", (*nodes)[i].cur);
    fprintf(f, "\n");
    for(size_t i = 0; i < depth && i < nodes->size(); ++i)
    {
        Node& n = (*nodes)[i];
        fprintf(f, "# step %u: %s %d of {", n.pt, ot_names[n.o[n.cur].type], n.o[n.cur].f);
        for(auto& x : n.o) fprintf(f, " %s%d", ot_names[x.type], x.f);
        fprintf(f, " }\n");
    }
    fclose(f);
}
} // namespace

static int real_main(int argc, char** argv)
{
    const char *lib = nullptr, *name = nullptr, *out = nullptr, *rep_out = nullptr, *rep_in = nullptr;
    bool listing = false;
    int pmax = -1, tover = -1, sover = -1;
    double cap = 60;
    u64 vbits = 22;
    for(int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() { return i + 1 < argc ? argv[++i] : (char*)""; };
        if(a == "--list") listing = true;
        else if(a == "--scenario") name = val();
        else if(a == "--thorough") thorough = true;
        else if(a == "--pmax") pmax = atoi(val());
        else if(a == "--timers") tover = atoi(val());
        else if(a == "--spurious") sover = atoi(val());
        else if(a == "--cap") cap = atof(val());
        else if(a == "--out") out = val();
        else if(a == "--replay-out") rep_out = val();
        else if(a == "--replay") rep_in = val();
        else if(a == "--rc") rc_points = true;
        else if(a == "--nocache") nocache = true; // self-test of the state cache
        else if(a == "--vbits") vbits = (u64)atoi(val());
        else if(a == "-v") verbose = true;
        else lib = argv[i];
    }
    int pers = personality(0xffffffff);
    if(pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("MC_REEXEC"))
    {
        if(personality((unsigned long)(pers | ADDR_NO_RANDOMIZE)) != -1)
        {
            setenv("MC_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    static char buf[3][1 << 16];
    eng_out = fdopen(dup(1), "w");
    eng_err = fdopen(dup(2), "w");
    int null = open("/dev/null", O_WRONLY);
    if(!eng_out || !eng_err || null < 0) return 3;
    setvbuf(eng_out, buf[0], _IOFBF, sizeof buf[0]);
    setvbuf(eng_err, buf[1], _IOLBF, sizeof buf[1]);
    setvbuf(stdout, buf[2], _IOLBF, sizeof buf[2]);
    dup2(null, 1);
    dup2(null, 2);
    close(null);
    warm_up();
    optbuf = new std::vector<Opt>;
    optbuf->reserve(256);
    nodes = new std::vector<Node>;
    nodes->reserve(4096);
    obs = new std::string;
    vmsg = new std::string;
    replay_choices = new std::vector<u64>;
    load(lib);
    if(listing)
    {
        for(auto s = scen; s; s = s->next) fprintf(eng_out, "%s %d %d %d %d\n", s->name, s->p_quick, s->p_thorough, s->t, s->s);
        return 0;
    }
    int rb[3] = {0, 0, 0};
    std::string rname;
    if(rep_in)
    {
        FILE* f = fopen(rep_in, "r");
        if(!f) { fprintf(eng_err, "cannot read %s\n", rep_in); return 3; }
        static char line[1 << 20];
        while(fgets(line, sizeof line, f))
        {
            char nm[256];
            int x;
            if(sscanf(line, "scenario %255s", nm) == 1) { rname = nm; name = rname.c_str(); }
            sscanf(line, "budget %d %d %d", &rb[0], &rb[1], &rb[2]);
            if(sscanf(line, "unbounded %d", &x) == 1) unbounded = x;
            if(sscanf(line, "rc %d", &x) == 1) rc_points = x;
            if(sscanf(line, "thorough %d", &x) == 1) thorough = x;
            if(!strncmp(line, "choices", 7))
            {
                char* p = line + 7;
                char* e;
                for(;;)
                {
                    unsigned long v = strtoul(p, &e, 10);
                    if(e == p) break;
                    replay_choices->push_back(v);
                    p = e;
                }
            }
        }
        fclose(f);
        replaying = true;
    }
    mc::Scenario* s0 = scen;
    scen = nullptr;
    for(auto s = s0; s; s = s->next) if(name && !strcmp(s->name, name)) scen = s;
    if(!scen) { fprintf(eng_err, "no such scenario: %s\n", name ? name : "(none)"); return 3; }

    static char altstack[1 << 16];
    stack_t ss{};
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for(int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE}) sigaction(s, &sa, nullptr);
    sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_RESTART;
    sigaction(SIGALRM, &sa, nullptr);
    itimerval tv{};
    tv.it_interval.tv_sec = tv.it_value.tv_sec = 1;
    setitimer(ITIMER_REAL, &tv, nullptr);
    std::set_terminate(on_terminate);

    if(replaying)
    {
        bud_p = rb[0]; bud_t = rb[1]; bud_s = rb[2];
        run_one();
        if(diverged) { fprintf(eng_out, "REPLAY diverged\n"); return 3; }
        if(outcome == 3) { fprintf(eng_out, "REPLAY violation %s\n", vmsg->c_str()); return 1; }
        fprintf(eng_out, "REPLAY ok %s\n", obs->c_str());
        return 0;
    }

    double t0 = now_s();
    bud_t = tover >= 0 ? tover : scen->t;
    bud_s = sover >= 0 ? sover : scen->s;
    int plim = pmax >= 0 ? pmax : thorough ? scen->p_thorough : scen->p_quick;
    vis_cap = 1ull << vbits;
    auto new_vis = [&]()
    {
        if(vis) munmap(vis, vis_cap * sizeof(Vis));
        vis = (Vis*)mmap(0, vis_cap * sizeof(Vis), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        vis_n = 0;
    };
    std::unordered_map<std::string, u64> outcomes;
    int completed_p = -1;
    bool all = false, capped = false, viol = false;
    u64 states_last = 0;
    std::string sample, sample_obs;
    int sample_pre = -1;
    // bounds 0, 1, 2, ... plim; 99 stands for "no bound" and is tried after bound 2
    for(int p = 0; p <= plim && p <= 15; ++p)
    {
        if(plim >= 90 && p == 3) unbounded = true;
        bud_p = unbounded ? 0 : p;
        bound_hit = false;
        nodes->clear();
        new_vis();
        st_states = 0;
        for(;;)
        {
            run_one();
            if(diverged)
            {
                fprintf(eng_err, "DIVERGED: replay of a schedule prefix behaved differently\n");
                return 4;
            }
            if(outcome == 1)
            {
                if(preempted > sample_pre)
                {
                    sample_pre = preempted;
                    sample_obs = *obs;
                    sample.clear();
                    for(size_t i = 0; i < depth; ++i)
                    {
                        char b[40];
                        Opt& x = (*nodes)[i].o[(*nodes)[i].cur];
                        snprintf(b, sizeof b, "%s%u:%s%d", i ? " " : "", (*nodes)[i].pt, ot_names[x.type], x.f);
                        sample += b;
                        if(sample.size() > 1500) { sample += " ..."; break; }
                    }
                }
                auto it = outcomes.find(*obs);
                if(it != outcomes.end()) ++it->second;
                else if(outcomes.size() < 20000) outcomes.emplace(*obs, 1);
            }
            if(outcome == 3) { viol = true; break; }
            while(!nodes->empty() && nodes->back().cur + 1 >= nodes->back().n) nodes->pop_back();
            if(nodes->empty()) break;
            ++nodes->back().cur;
            if(now_s() - t0 > cap || vis_full) { capped = true; break; }
        }
        states_last = st_states > states_last ? st_states : states_last;
        if(viol || capped) break;
        completed_p = p;
        if(!bound_hit || unbounded) { all = true; break; }
    }
    double dt = now_s() - t0;
    if(viol && rep_out) write_replay(rep_out, *vmsg);
    FILE* f = out ? fopen(out, "w") : eng_out;
    fprintf(f, "{\"scenario\": \"%s\", \"violation\": %s, \"message\": \"%s\", \"executions\": %llu, \"complete\": %llu, \"pruned\": %llu, \"steps\": %llu, \"new_steps\": %llu, \"states\": %llu, "
               "\"bound_completed\": %d, \"all_interleavings\": %s, \"capped\": %s, \"timer_budget\": %d, \"spurious_budget\": %d, \"rc\": %d, \"max_depth\": %llu, \"max_preemptions\": %llu, \"wall\": %.3f, \"outcomes\": [",
            scen->name, viol ? "true" : "false", jesc(*vmsg).c_str(), (unsigned long long)st_exec, (unsigned long long)st_complete, (unsigned long long)st_pruned, (unsigned long long)st_steps,
            (unsigned long long)st_newsteps, (unsigned long long)states_last, completed_p, all ? "true" : "false", capped ? "true" : "false", bud_t, bud_s, rc_points, (unsigned long long)st_maxpt,
            (unsigned long long)st_preempt_max, dt);
    int k = 0;
    for(auto& o : outcomes)
    {
        if(k >= 40) break;
        fprintf(f, "%s[\"%s\", %llu]", k++ ? ", " : "", jesc(o.first).c_str(), (unsigned long long)o.second);
    }
    fprintf(f, "], \"distinct_outcomes\": %zu, \"sample\": {\"preemptions\": %d, \"schedule\": \"%s\", \"outcome\": \"%s\"}}\n", outcomes.size(), sample_pre, jesc(sample).c_str(), jesc(sample_obs).c_str());
    if(out) fclose(f);
    return viol ? 1 : 0;
}

// the destructors of the globals under test must not run outside of an execution
int main(int argc, char** argv)
{
    int r = real_main(argc, argv);
    fflush(eng_out);
    fflush(eng_err);
    _exit(r);
}
