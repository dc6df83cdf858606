// Threads as fibers under an explicit scheduler: every platform atomic operation is a scheduling point.
#pragma once
#include <conc/atomic.hpp>
#include <mc.hpp>

#include <array>
#include <functional>
#include <string>
#include <ucontext.h>
#include <vector>

namespace sched {
using std::size_t;
constexpr size_t max_threads = 3;
inline ucontext_t main_ctx;
struct Fiber {
    ucontext_t ctx;
    std::function<void()> body;
    bool done{};
    alignas(64) std::array<char, 64 * 1024> stack;
};
inline std::array<Fiber, max_threads> fibers;
inline int running = -1;
inline void yield() {
    if (running >= 0) {
        auto &f = fibers[static_cast<size_t>(running)];
        swapcontext(&f.ctx, &main_ctx);
    }
}
inline void entry(int i) {
    auto &f = fibers[static_cast<size_t>(i)];
    f.body();
    f.done = true;
    swapcontext(&f.ctx, &main_ctx);
}
inline void resume(size_t i) {
    running = static_cast<int>(i);
    swapcontext(&main_ctx, &fibers[i].ctx);
    running = -1;
}
// runs the bodies as threads in the interleaving given by the choices; returns the schedule
inline auto run(std::vector<std::function<void()>> bodies, mc::Choices &c) -> std::string {
    conc_shim::before = yield;
    for (size_t i{}; i < bodies.size(); ++i) {
        auto &f = fibers[i];
        f.body = std::move(bodies[i]);
        f.done = false;
        getcontext(&f.ctx);
        f.ctx.uc_stack.ss_sp = f.stack.data();
        f.ctx.uc_stack.ss_size = f.stack.size();
        f.ctx.uc_link = nullptr;
        makecontext(&f.ctx, reinterpret_cast<void (*)()>(entry), 1, static_cast<int>(i));
        resume(i); // up to its first operation
    }
    std::string schedule;
    for (;;) {
        std::vector<size_t> ready;
        for (size_t i{}; i < bodies.size(); ++i) {
            if (not fibers[i].done) { ready.push_back(i); }
        }
        if (ready.empty()) { break; }
        auto const t = ready[static_cast<size_t>(c.next(static_cast<int>(ready.size())))];
        schedule += static_cast<char>('0' + t);
        if (schedule.size() > 200) { mc::fail("an operation does not finish: schedule " + schedule); }
        resume(t);
        mc::step();
    }
    conc_shim::before = nullptr;
    return schedule;
}

// ---- linearizability: is there an order of the operations that gives the same results and final value?
template <typename M> struct Operation {
    std::string name;
    std::function<std::uint64_t(M &)> model; // what the operation does and returns at one instant
};
template <typename M>
auto explained(std::vector<std::vector<Operation<M> const *>> const &threads, std::vector<std::vector<std::uint64_t>> const &results, std::vector<size_t> &at, M const &now, M const &final) -> bool {
    bool done = true;
    for (size_t t{}; t < threads.size(); ++t) {
        if (at[t] < threads[t].size()) {
            done = false;
            M next = now;
            if (threads[t][at[t]]->model(next) == results[t][at[t]]) {
                ++at[t];
                auto const ok = explained(threads, results, at, next, final);
                --at[t];
                if (ok) { return true; }
            }
        }
    }
    return done and now == final;
}
} // namespace sched
