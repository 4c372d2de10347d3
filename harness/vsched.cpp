#include "vsched.h"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sysinfo.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <atomic>
#include <map>
#include <set>
#include <algorithm>
#include <vector>

std::function<void(const char*)> vs_on_stuck;
int vs_hardware_concurrency = -1;

namespace
{
template <class F> F real_fn(const char* name)
{
    void* p = dlsym(RTLD_NEXT, name);
    if(!p) { fprintf(stderr, "vsched: no %s\n", name); _exit(77); }
    return (F)p;
}
// glibc exports old and new versions of the condition variable functions.
template <class F> F real_fnv(const char* name)
{
    void* p = dlvsym(RTLD_NEXT, name, "GLIBC_2.3.2");
    if(!p) p = dlsym(RTLD_NEXT, name);
    if(!p) { fprintf(stderr, "vsched: no %s\n", name); _exit(77); }
    return (F)p;
}
#define REAL(ret, name, args) \
    static ret (*real_##name) args = 0; \
    if(!real_##name) real_##name = real_fn<ret (*) args>(#name);
#define REALV(ret, name, args) \
    static ret (*real_##name) args = 0; \
    if(!real_##name) real_##name = real_fnv<ret (*) args>(#name);

enum St { RUNNABLE, ON_MUTEX, ON_COND, ON_JOIN, ON_SEM, FINISHED };

struct Thread
{
    int id;
    St st;
    void* obj;          // mutex / cond / sem
    void* obj2;         // mutex to reacquire after cond
    int target;         // joined thread
    bool timed;         // waiting with a time-out
    bool timed_out;
    bool yielded;       // asked to let others run first
    int prio;
    pthread_t handle;
    bool reaped;
    std::atomic<int> token;
};

struct Mutex { int owner; int count; };

bool g_active = false;
std::vector<Thread*> g_threads;
std::map<void*, Mutex> g_mutex;
std::map<void*, int> g_sem;
VsStrategy g_s;
VsResult g_r;
int g_current = 0;
int g_preemptions = 0;
int g_spurious = 0;
long g_yield_steps = 0;
unsigned long long g_rng;
std::vector<long> g_change_points;
int g_low_prio = 0;
std::atomic<long> g_progress(0);
thread_local Thread* t_self = 0;

unsigned long long rnd()
{
    g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17;
    return g_rng * 2685821657736338717ULL;
}

void fwait(std::atomic<int>* a)
{
    while(a->load() == 0)
        syscall(SYS_futex, (int*)a, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
    a->store(0);
}
void fpost(std::atomic<int>* a)
{
    a->store(1);
    syscall(SYS_futex, (int*)a, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}

bool mutex_free(void* m)
{
    std::map<void*, Mutex>::iterator it = g_mutex.find(m);
    return it == g_mutex.end() || it->second.owner < 0;
}

bool enabled(Thread* t)
{
    switch(t->st)
    {
    case RUNNABLE: return true;
    case ON_MUTEX: return mutex_free(t->obj);
    case ON_JOIN: return g_threads[t->target]->st == FINISHED;
    case ON_SEM: return g_sem[t->obj] > 0;
    default: return false;
    }
}

int decide(int options)
{
    if(options <= 1) return 0;
    int c = 0;
    if(g_s.kind == 0)
    {
        size_t i = g_r.decisions.size();
        if(i < g_s.prefix.size()) c = g_s.prefix[i];
        if(c >= options) c = options - 1;
    }
    else c = (int)(rnd() % options);
    VsDecision d = { c, options };
    g_r.decisions.push_back(d);
    return c;
}

void stuck(const char* why)
{
    if(vs_on_stuck) vs_on_stuck(why);
    _exit(3);
}

// Give the token to some thread. `me` is the caller (possibly not enabled).
void schedule(Thread* me)
{
    g_r.steps++;
    g_progress++;
    if(g_r.steps > g_s.max_steps) { g_r.no_progress = true; stuck("NoProgress"); }
    bool random_mode = g_s.kind != 0 || g_r.steps > g_s.max_steps / 10;

    // time-outs and spurious wake-ups are extra, budgeted choices
    std::vector<Thread*> en;
    for(size_t i = 0; i < g_threads.size(); i++)
        if(enabled(g_threads[i])) en.push_back(g_threads[i]);
    std::vector<Thread*> fresh;
    for(size_t i = 0; i < en.size(); i++) if(!en[i]->yielded) fresh.push_back(en[i]);
    if(fresh.empty()) { for(size_t i = 0; i < en.size(); i++) en[i]->yielded = false; fresh = en; }
    std::vector<Thread*> timed, waiting;
    for(size_t i = 0; i < g_threads.size(); i++)
    {
        Thread* t = g_threads[i];
        if(t->st == ON_COND || t->st == ON_SEM)
        {
            if(t->timed) timed.push_back(t);
            else if(t->st == ON_COND) waiting.push_back(t);
        }
    }
    if(en.empty() && timed.empty())
    {
        bool all = true;
        for(size_t i = 0; i < g_threads.size(); i++)
            if(g_threads[i]->st != FINISHED) all = false;
        if(all) return;
        g_r.deadlock = true;
        stuck("Deadlock");
    }
    Thread* next = 0;
    bool me_ok = me && std::find(fresh.begin(), fresh.end(), me) != fresh.end();
    if(en.empty())
    {
        next = timed[decide((int)timed.size())];
    }
    else if(g_s.kind == 2 && !random_mode) next = fresh[0];
    else if(g_s.kind == 2)
    {
        for(size_t i = 0; i < g_change_points.size(); i++)
            if(g_change_points[i] == g_r.steps && me) me->prio = --g_low_prio;
        next = fresh[0];
        for(size_t i = 1; i < fresh.size(); i++) if(fresh[i]->prio > next->prio) next = fresh[i];
        if(g_spurious > 0 && !waiting.empty() && rnd() % 23 == 0)
            { g_spurious--; next = waiting[rnd() % waiting.size()]; }
        else if(!timed.empty() && rnd() % 11 == 0) next = timed[rnd() % timed.size()];
    }
    else
    {
        std::vector<Thread*> opts;
        if(me_ok && !(random_mode && g_s.kind == 0)) opts.push_back(me);
        bool may_preempt = !me_ok || g_s.kind != 0 || random_mode ||
                           g_preemptions < g_s.preemption_bound;
        if(may_preempt)
            for(size_t i = 0; i < fresh.size(); i++) if(fresh[i] != me || !me_ok || opts.empty()) opts.push_back(fresh[i]);
        if(g_s.kind == 1) { if(!timed.empty() && rnd() % 7 == 0) opts.push_back(timed[0]); }
        size_t plain = opts.size();
        if(g_spurious > 0 && may_preempt && (g_s.kind == 0 || rnd() % 13 == 0))
            for(size_t i = 0; i < waiting.size(); i++) opts.push_back(waiting[i]);
        int c;
        if(random_mode && g_s.kind == 0) c = (int)(rnd() % opts.size());
        else c = decide((int)opts.size());
        next = opts[c];
        if((size_t)c >= plain) g_spurious--;
        if(me_ok && next != me) g_preemptions++;
    }
    // wake a waiting thread chosen by time-out or spuriously
    if(next->st == ON_COND || (next->st == ON_SEM && !enabled(next)))
    {
        next->timed_out = next->timed;
        if(next->st == ON_COND) { next->st = ON_MUTEX; next->obj = next->obj2; }
        else next->st = RUNNABLE;
        if(!enabled(next)) { schedule(me); return; }
    }
    if(next->st == ON_MUTEX)
    {
        Mutex& m = g_mutex[next->obj];
        m.owner = next->id; m.count = 1;
    }
    if(next->st == ON_SEM && enabled(next)) g_sem[next->obj]--;
    next->st = RUNNABLE;
    g_current = next->id;
    if(next == me) return;
    fpost(&next->token);
    if(me && me->st != FINISHED) fwait(&me->token);
}

bool controlled() { return g_active && t_self != 0; }

struct Start { void* (*fn)(void*); void* arg; Thread* t; };

void* trampoline(void* p)
{
    Start s = *(Start*)p;
    delete (Start*)p;
    t_self = s.t;
    fwait(&s.t->token);
    void* r = s.fn(s.arg);
    s.t->st = FINISHED;
    t_self = 0;
    schedule(s.t);
    return r;
}

// threads outside the scheduler's control: only counted, until their function has returned
std::atomic<int> g_plain(0);
struct Plain { void* (*fn)(void*); void* arg; };
void* plain_trampoline(void* p)
{
    Plain s = *(Plain*)p;
    delete (Plain*)p;
    void* r = s.fn(s.arg);
    g_plain--;
    return r;
}

int m_kind(pthread_mutex_t* m) { return m->__data.__kind & 3; }
}

bool vs_controlled() { return controlled(); }
int vs_self() { return t_self ? t_self->id : -1; }
void vs_yield() { if(controlled()) schedule(t_self); }
int vs_alive()
{
    int n = 0;
    for(size_t i = 1; i < g_threads.size(); i++) if(g_threads[i]->st != FINISHED) n++;
    return n;
}
int vs_plain_alive() { return g_plain; }
int vs_created() { return (int)g_threads.size() - 1; }

VsResult vs_run(const VsStrategy& strategy, const std::function<void()>& body)
{
    for(size_t i = 0; i < g_threads.size(); i++) delete g_threads[i];
    g_threads.clear(); g_mutex.clear(); g_sem.clear();
    g_s = strategy;
    g_r = VsResult();
    g_rng = strategy.seed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
    for(int i = 0; i < 5; i++) rnd();
    g_preemptions = 0;
    g_spurious = strategy.spurious_budget;
    g_low_prio = 0;
    g_change_points.clear();
    if(strategy.kind == 2)
        for(int i = 0; i < strategy.depth; i++) g_change_points.push_back(1 + rnd() % 150);
    Thread* main_thread = new Thread();
    main_thread->id = 0; main_thread->st = RUNNABLE; main_thread->token = 0;
    main_thread->prio = 1 + rnd() % 1000; main_thread->yielded = false;
    g_threads.push_back(main_thread);
    g_current = 0;
    t_self = main_thread;
    g_active = true;
    body();
    g_r.threads_alive = vs_alive();
    if(g_r.threads_alive)
    {   // let leftovers run to their end so that the next run starts clean
        stuck("ThreadsLeft");
    }
    g_active = false;
    t_self = 0;
    return g_r;
}

bool vs_next_prefix(const std::vector<VsDecision>& d, std::vector<int>& prefix)
{
    prefix.clear();
    int i = (int)d.size() - 1;
    while(i >= 0 && d[i].chosen + 1 >= d[i].options) i--;
    if(i < 0) return false;
    for(int j = 0; j < i; j++) prefix.push_back(d[j].chosen);
    prefix.push_back(d[i].chosen + 1);
    return true;
}

// ------------------------------------------------------------------ interposition
extern "C"
{
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*));
    if(!controlled())
    {
        Plain* q = new Plain();
        q->fn = fn; q->arg = arg;
        g_plain++;
        int rc = real_pthread_create(h, a, plain_trampoline, q);
        if(rc) { g_plain--; delete q; }
        return rc;
    }
    Thread* t = new Thread();
    t->id = (int)g_threads.size(); t->st = RUNNABLE; t->token = 0; t->yielded = false;
    t->reaped = false; t->prio = 1 + rnd() % 1000;
    Start* s = new Start();
    s->fn = fn; s->arg = arg; s->t = t;
    g_threads.push_back(t);
    int rc = real_pthread_create(&t->handle, a, trampoline, s);
    if(rc) { t->st = FINISHED; return rc; }
    *h = t->handle;
    schedule(t_self);
    return 0;
}

int pthread_join(pthread_t h, void** ret)
{
    REAL(int, pthread_join, (pthread_t, void**));
    if(controlled())
    {
        for(size_t i = 1; i < g_threads.size(); i++)
            if(!g_threads[i]->reaped && pthread_equal(g_threads[i]->handle, h))
            {
                Thread* t = t_self;
                t->st = ON_JOIN; t->target = (int)i;
                schedule(t);
                g_threads[i]->reaped = true;
                break;
            }
    }
    return real_pthread_join(h, ret);
}

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    REAL(int, pthread_mutex_init, (pthread_mutex_t*, const pthread_mutexattr_t*));
    if(controlled()) g_mutex.erase(m);
    return real_pthread_mutex_init(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    REAL(int, pthread_mutex_destroy, (pthread_mutex_t*));
    if(controlled()) g_mutex.erase(m);
    return real_pthread_mutex_destroy(m);
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    REAL(int, pthread_mutex_lock, (pthread_mutex_t*));
    if(!controlled()) return real_pthread_mutex_lock(m);
    Thread* t = t_self;
    std::map<void*, Mutex>::iterator it = g_mutex.find(m);
    if(it != g_mutex.end() && it->second.owner == t->id)
    {
        if(m_kind(m) == PTHREAD_MUTEX_RECURSIVE_NP) { it->second.count++; return 0; }
        if(m_kind(m) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
    }
    t->st = ON_MUTEX; t->obj = m;
    schedule(t);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    REAL(int, pthread_mutex_trylock, (pthread_mutex_t*));
    if(!controlled()) return real_pthread_mutex_trylock(m);
    schedule(t_self);
    Mutex* x = g_mutex.count(m) ? &g_mutex[m] : 0;
    if(x && x->owner >= 0)
    {
        if(x->owner == t_self->id && m_kind(m) == PTHREAD_MUTEX_RECURSIVE_NP) { x->count++; return 0; }
        return EBUSY;
    }
    g_mutex[m].owner = t_self->id; g_mutex[m].count = 1;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    REAL(int, pthread_mutex_unlock, (pthread_mutex_t*));
    if(!controlled()) return real_pthread_mutex_unlock(m);
    std::map<void*, Mutex>::iterator it = g_mutex.find(m);
    if(it == g_mutex.end() || it->second.owner != t_self->id) return EPERM;
    if(--it->second.count == 0)
    {
        it->second.owner = -1;
        schedule(t_self);
    }
    return 0;
}

static int cond_block(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    Thread* t = t_self;
    std::map<void*, Mutex>::iterator it = g_mutex.find(m);
    if(it != g_mutex.end() && it->second.owner == t->id) it->second.owner = -1;
    t->st = ON_COND; t->obj = c; t->obj2 = m; t->timed = timed; t->timed_out = false;
    schedule(t);
    t->timed = false;
    return t->timed_out ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    REALV(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*));
    if(!controlled()) return real_pthread_cond_wait(c, m);
    return cond_block(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    REALV(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*));
    if(!controlled()) return real_pthread_cond_timedwait(c, m, ts);
    return cond_block(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{
    REAL(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*));
    if(!controlled()) return real_pthread_cond_clockwait(c, m, k, ts);
    return cond_block(c, m, true);
}
static void cond_wake(pthread_cond_t* c, bool all)
{
    std::vector<Thread*> w;
    for(size_t i = 0; i < g_threads.size(); i++)
        if(g_threads[i]->st == ON_COND && g_threads[i]->obj == c) w.push_back(g_threads[i]);
    if(!w.empty() && !all)
    {
        Thread* x = w[decide((int)w.size())];
        w.clear(); w.push_back(x);
    }
    for(size_t i = 0; i < w.size(); i++) { w[i]->st = ON_MUTEX; w[i]->obj = w[i]->obj2; }
    schedule(t_self);
}
int pthread_cond_signal(pthread_cond_t* c)
{
    REALV(int, pthread_cond_signal, (pthread_cond_t*));
    if(!controlled()) return real_pthread_cond_signal(c);
    cond_wake(c, false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    REALV(int, pthread_cond_broadcast, (pthread_cond_t*));
    if(!controlled()) return real_pthread_cond_broadcast(c);
    cond_wake(c, true);
    return 0;
}
int sem_init(sem_t* s, int sh, unsigned v)
{
    REAL(int, sem_init, (sem_t*, int, unsigned));
    if(controlled()) g_sem[s] = (int)v;
    return real_sem_init(s, sh, v);
}
int sem_wait(sem_t* s)
{
    REAL(int, sem_wait, (sem_t*));
    if(!controlled()) return real_sem_wait(s);
    t_self->st = ON_SEM; t_self->obj = s; t_self->timed = false;
    schedule(t_self);
    return 0;
}
int sem_post(sem_t* s)
{
    REAL(int, sem_post, (sem_t*));
    if(!controlled()) return real_sem_post(s);
    g_sem[s]++;
    schedule(t_self);
    return 0;
}
int sched_yield(void)
{
    if(!controlled()) { REAL(int, sched_yield, (void)); return real_sched_yield(); }
    t_self->yielded = true;
    schedule(t_self);
    t_self->yielded = false;
    return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b)
{
    if(!controlled()) { REAL(int, nanosleep, (const struct timespec*, struct timespec*)); return real_nanosleep(a, b); }
    t_self->yielded = true;
    schedule(t_self);
    t_self->yielded = false;
    return 0;
}
int clock_nanosleep(clockid_t k, int f, const struct timespec* a, struct timespec* b)
{
    if(!controlled()) { REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec*, struct timespec*)); return real_clock_nanosleep(k, f, a, b); }
    t_self->yielded = true;
    schedule(t_self);
    t_self->yielded = false;
    return 0;
}
int usleep(useconds_t u)
{
    if(!controlled()) { REAL(int, usleep, (useconds_t)); return real_usleep(u); }
    t_self->yielded = true;
    schedule(t_self);
    t_self->yielded = false;
    return 0;
}
int get_nprocs(void)
{
    if(vs_hardware_concurrency >= 0) return vs_hardware_concurrency;
    REAL(int, get_nprocs, (void));
    return real_get_nprocs();
}
long sysconf(int name)
{
    if((name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) && vs_hardware_concurrency >= 0)
        return vs_hardware_concurrency;
    REAL(long, sysconf, (int));
    return real_sysconf(name);
}
}

// A thread that detects that the code under test blocks in a primitive which is not
// interposed: the run cannot be controlled (exit 78, the check falls back).
static void* vs_watchdog(void*)
{
    long last = -1;
    int same = 0;
    for(;;)
    {
        struct timespec ts = { 1, 0 };
        syscall(SYS_nanosleep, &ts, NULL);
        if(!g_active) { same = 0; continue; }
        long p = g_progress;
        same = p == last ? same + 1 : 0;
        last = p;
        if(same >= 30) { fprintf(stderr, "vsched: no scheduling point for 30s\n"); _exit(78); }
    }
    return 0;
}
__attribute__((constructor)) static void vs_init()
{
    pthread_t t;
    REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*));
    real_pthread_create(&t, 0, vs_watchdog, 0);
    pthread_detach(t);
}
