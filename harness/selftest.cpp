// Self-test of the simulated OpenMP runtime: constructs with known results, and (with PLANT) faulty uses of them that
// the search has to find.
#include "sim.h"
#include <cstdint>
#include <atomic>
#include <chrono>
#include <future>
#include <mutex>
#include <omp.h>
#include <pthread.h>
#include <semaphore.h>
#include <shared_mutex>
#include <thread>
#include <vector>

#ifndef PLANT
#define PLANT 0
#endif
const sim::CheckInfo sim::info = {"SELF", "openmp", "one run: OpenMP constructs with known results", "compiler", "OpenMP runtime"};
void sim::zygote() {}
static long fib(int n)
{
    if(n < 2)
        return n;
    long a, b;
#pragma omp task shared(a)
    a = fib(n - 1);
#pragma omp task shared(b)
    b = fib(n - 2);
#pragma omp taskwait
    return a + b;
}
#define CHECK(x)                                                                                                                           \
    if(!(x))                                                                                                                               \
    sim::fail("omp", "%s line %d", #x, __LINE__)
void sim::scenario()
{
    sim::set_max_threads(int(sim::draw(1, 6)));
    uint64_t n = uint64_t(sim::draw(0, 40));
    std::vector<uint64_t> v;
#pragma omp parallel for ordered
    for(uint64_t i = 0; i < n; ++i) {
#pragma omp ordered
        v.push_back(i);
    }
    CHECK(v.size() == n);
    for(uint64_t i = 0; i < n; ++i)
        CHECK(v[i] == i);
    v.clear();
#pragma omp parallel for ordered schedule(dynamic, 2)
    for(uint64_t i = 0; i < n; ++i) {
#pragma omp ordered
        v.push_back(i);
    }
    for(uint64_t i = 0; i < n; ++i)
        CHECK(v[i] == i);
    int N = int(n);
    long want = long(N) * (N - 1) / 2;
    double r = 0;
#pragma omp parallel
#pragma omp single
#pragma omp taskgroup task_reduction(+ : r)
    for(int i = 0; i < N; ++i)
#pragma omp task in_reduction(+ : r)
        r += i;
    CHECK(r == want);
    r = 0;
#pragma omp parallel for reduction(task, + : r)
    for(int i = 0; i < N; ++i) {
        r += i;
#pragma omp task in_reduction(+ : r)
        r += 1;
    }
    CHECK(r == want + N);
    r = 0;
#pragma omp parallel
#pragma omp single
#pragma omp taskloop reduction(+ : r)
    for(int i = 0; i < N; ++i)
        r += i;
    CHECK(r == want);
    long f = 0;
#pragma omp parallel
    {
#pragma omp single nowait
        f = fib(9);
    }
    CHECK(f == 34);
    std::vector<int> seen(N);
#pragma omp parallel
    {
#pragma omp for nowait
        for(int i = 0; i < N; ++i) {
#pragma omp task
            seen[i] = 1 + omp_get_thread_num();
        }
    }
    int other = 0;
    for(int i = 0; i < N; ++i) {
        CHECK(seen[i] > 0);
        other |= seen[i] != seen[0];
    }
    sim::digest(uint64_t(other));
    std::vector<int> w(N);
#pragma omp parallel
    {
#pragma omp master
        for(int i = 0; i < N; ++i) {
#pragma omp task firstprivate(i) depend(inout : w)
            w[i] = i ? w[i - 1] + 1 : 1;
        }
#pragma omp barrier
        if(N)
            CHECK(w[N - 1] == N);
    }
    long tot = 0;
#pragma omp parallel
    {
#pragma omp task
        {
#pragma omp parallel num_threads(2)
            {
#pragma omp task
                {
#pragma omp atomic
                    ++tot;
                }
            }
        }
    }
    sim::digest(uint64_t(tot));
    CHECK(tot >= 1);
#if PLANT == 1 // a race between tasks
    long t2 = 0;
#pragma omp parallel
#pragma omp single
    for(int i = 0; i < 20; ++i)
#pragma omp task shared(t2)
        t2 += i;
    CHECK(t2 == 190);
#endif
#if PLANT == 2 // results used before the tasks are done
    long t2 = 0;
#pragma omp parallel
#pragma omp single
    {
        long loc[20];
        for(int i = 0; i < 20; ++i)
#pragma omp task shared(loc)
            loc[i] = i;
        for(int i = 0; i < 20; ++i)
            t2 += loc[i];
#pragma omp taskwait
    }
    CHECK(t2 == 190);
#endif
#if PLANT == 3 // the barrier of the first loop is left out
    std::vector<int> x(32), y(32);
#pragma omp parallel
    {
#pragma omp for schedule(dynamic, 3) nowait
        for(int i = 0; i < 32; ++i)
            x[i] = i;
#pragma omp for schedule(dynamic, 3)
        for(int i = 0; i < 32; ++i)
            y[i] = x[31 - i];
    }
    for(int i = 0; i < 32; ++i)
        CHECK(y[i] == 31 - i);
#endif
    // a hundred loops without barriers between them
    std::vector<long> part(100);
#pragma omp parallel
    for(int k = 0; k < 100; ++k) {
#pragma omp for schedule(dynamic, 1) nowait
        for(int i = 0; i < 3; ++i) {
#pragma omp atomic
            part[k] += i + 1;
        }
    }
    for(int k = 0; k < 100; ++k)
        CHECK(part[k] == 6);
    // prefix sums
    std::vector<long> pre(N + 1), ex(N + 1);
    long run = 0;
#pragma omp parallel for reduction(inscan, + : run)
    for(int i = 0; i < N; ++i) {
        run += i;
#pragma omp scan inclusive(run)
        pre[i] = run;
    }
    CHECK(run == want);
    for(int i = 0; i < N; ++i)
        CHECK(pre[i] == long(i) * (i + 1) / 2);
    // the value of the last iteration that assigned one
    int last = -1;
#pragma omp parallel for lastprivate(conditional : last) schedule(dynamic, 1)
    for(int i = 0; i < N; ++i)
        if(i % 3 == 0)
            last = i;
    CHECK(last == (N ? (N - 1) / 3 * 3 : -1));
#pragma omp parallel for lastprivate(conditional : last) schedule(static, 2)
    for(uint64_t i = 0; i < n; ++i)
        if(i % 5 == 0)
            last = int(i);
    CHECK(last == (N ? (N - 1) / 5 * 5 : -1));
    // dependences between iterations
    std::vector<std::vector<long>> tri(9, std::vector<long>(9, 1));
#pragma omp parallel for ordered(2) schedule(static, 1)
    for(int i = 1; i < 9; ++i)
        for(int j = 1; j < 9; ++j) {
#pragma omp ordered depend(sink : i - 1, j) depend(sink : i, j - 1)
            tri[i][j] = tri[i - 1][j] + tri[i][j - 1];
#pragma omp ordered depend(source)
        }
    CHECK(tri[8][8] == 12870);
    std::vector<long> chain(N + 1);
#pragma omp parallel for ordered(1) schedule(dynamic, 2)
    for(uint64_t i = 0; i < n; ++i) {
#pragma omp ordered depend(sink : i - 1)
        chain[i] = i ? chain[i - 1] + long(i) : 0;
#pragma omp ordered depend(source)
    }
    if(N)
        CHECK(chain[N - 1] == want);
    // task reductions of work-sharing constructs
    long tr = 0;
#pragma omp parallel
    {
#pragma omp for reduction(task, + : tr) schedule(dynamic, 1)
        for(int i = 0; i < N; ++i) {
            tr += i;
#pragma omp task in_reduction(+ : tr)
            tr += 2;
        }
#pragma omp sections reduction(task, + : tr)
        {
#pragma omp section
            {
#pragma omp task in_reduction(+ : tr)
                tr += 1000;
            }
#pragma omp section
            tr += 5000;
        }
    }
    CHECK(tr == want + 2 * N + 6000);
    // static schedules of two application levels at once
    std::vector<int> inner(64);
#pragma omp parallel for schedule(runtime)
    for(int i = 0; i < 8; ++i) {
#pragma omp parallel for schedule(monotonic : runtime)
        for(int j = 0; j < 8; ++j)
            inner[8 * i + j] = 1 + i + j;
    }
    for(int i = 0; i < 64; ++i)
        CHECK(inner[i] == 1 + i / 8 + i % 8);
    long league = 0;
#pragma omp teams num_teams(3) reduction(+ : league)
    {
#pragma omp distribute parallel for reduction(+ : league)
        for(int i = 0; i < N; ++i)
            league += i;
    }
    CHECK(league == want);
    // locks, barriers and waits of application threads
    {
        std::timed_mutex tm;
        std::shared_timed_mutex sm;
        pthread_barrier_t bar;
        sem_t sem;
        pthread_spinlock_t spin;
        pthread_barrier_init(&bar, nullptr, 3);
        sem_init(&sem, 0, 1);
        pthread_spin_init(&spin, 0);
        int both = 0, inside = 0, serial = 0;
        std::vector<std::thread> ts;
        for(int k = 0; k < 3; ++k)
            ts.emplace_back([&] {
                {
                    std::unique_lock<std::timed_mutex> l(tm, std::chrono::hours(1));
                    while(!l.owns_lock()) // the clock may jump
                        l.try_lock_for(std::chrono::hours(1));
                    ++both;
                }
                if(pthread_barrier_wait(&bar) == PTHREAD_BARRIER_SERIAL_THREAD) {
#pragma omp atomic
                    ++serial;
                }
                CHECK(both == 3);
                {
                    std::shared_lock<std::shared_timed_mutex> l(sm, std::chrono::hours(1));
                    while(!l.owns_lock())
                        l.try_lock_for(std::chrono::hours(1));
                }
                sem_wait(&sem);
                ++inside;
                CHECK(inside == 1);
                pthread_spin_lock(&spin);
                --inside;
                pthread_spin_unlock(&spin);
                sem_post(&sem);
            });
        for(auto& x : ts)
            x.join();
        CHECK(serial == 1);
        // waiting in a loop, with and without stepping back
        std::atomic<int> turn{0};
        std::thread other([&] {
            while(turn.load() != 1) {
            }
            for(int k = 0; k < 3000; ++k) {
                turn.store(2 + k);
                if(k % 100 == 0)
                    std::this_thread::yield();
            }
            turn.store(-1);
        });
        turn.store(1);
        while(turn.load() != -1)
            if(n % 2)
                std::this_thread::yield();
        other.join();
        auto fut = std::async(std::launch::async, [&] { return 5; });
        int waits = 0;
        while(fut.wait_for(std::chrono::milliseconds(5)) != std::future_status::ready)
            ++waits;
        CHECK(fut.get() == 5);
        std::promise<int> pr;
        auto t0 = std::chrono::steady_clock::now();
        CHECK(pr.get_future().wait_for(std::chrono::seconds(100)) == std::future_status::timeout);
        CHECK(std::chrono::steady_clock::now() - t0 >= std::chrono::seconds(100));
    }
    // work sharing
    long count = 0, sect = 0, crit = 0;
    int first = 0, copies = 0;
#pragma omp parallel reduction(+ : copies)
    {
        int mine = 0;
#pragma omp sections reduction(+ : sect)
        {
#pragma omp section
            sect += 1;
#pragma omp section
            sect += 10;
#pragma omp section
            sect += 100;
        }
#pragma omp single copyprivate(mine)
        {
            mine = 7;
            ++first;
        }
        copies += mine == 7;
#pragma omp critical
        ++crit;
#pragma omp for schedule(guided) reduction(+ : count)
        for(uint64_t i = 0; i < n; ++i)
            count += long(i);
#pragma omp for collapse(2) schedule(runtime)
        for(int i = 0; i < 3; ++i)
            for(int j = 0; j < 4; ++j) {
#pragma omp atomic
                ++crit;
            }
#pragma omp barrier
#pragma omp master
        crit -= omp_get_num_threads();
    }
    CHECK(sect == 111);
    CHECK(first == 1);
    CHECK(count == want);
    CHECK(crit == 12);
    CHECK(copies >= 1);
}
