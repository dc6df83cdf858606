// Every operation of stdx::atomic and atomic_bitset with every admissible memory order: the order that reaches the platform,
// and all interleavings of message passing programs with a vector clock race detector.
#include <stdx/atomic.hpp>
#include <stdx/atomic_bitset.hpp>

#include <mc.hpp>
#include <sched.hpp>
#include <array>
#include <optional>
#include <string>
#include <vector>
namespace {
using std::size_t;
using namespace stdx::literals;
using mo = std::memory_order;
using conc_shim::kind;
using At = stdx::atomic<std::uint32_t>;
using Bs = stdx::atomic_bitset<6>;
using Bt = stdx::bitset<6, ::atomic::atomic_type_t<std::uint8_t>>;

auto name(mo o) -> std::string {
    switch (o) {
    case mo::relaxed: return "relaxed";
    case mo::consume: return "consume";
    case mo::acquire: return "acquire";
    case mo::release: return "release";
    case mo::acq_rel: return "acq_rel";
    default: return "seq_cst";
    }
}
// acquire 1, release 2, sequentially consistent 4
auto strength(mo o) -> int {
    switch (o) {
    case mo::relaxed: return 0;
    case mo::consume: return 1; // consume is promoted to acquire
    case mo::acquire: return 1;
    case mo::release: return 2;
    case mo::acq_rel: return 3;
    default: return 7;
    }
}
// ---- every operation on an object with an optional order. The result says whether bit 0 was seen set before or after the operation
template <typename A> struct Op {
    std::string name;
    kind k;
    bool takes_order;
    bool publishes; // sets bit 0 of a zero object
    bool observes;  // result reveals bit 0
    std::function<bool(A &, std::optional<mo>)> run;
};
#define ORD(call_default, call_order)                                                                                                                                                                                                                          \
    [](auto &a, std::optional<mo> o) -> bool {                                                                                                                                                                                                                 \
        if (o) { return see(call_order); }                                                                                                                                                                                                                     \
        return see(call_default);                                                                                                                                                                                                                              \
    }
#define NOORD(call) [](auto &a, std::optional<mo>) -> bool { return see(call); }
struct nothing {};
auto see(std::uint32_t v) -> bool { return (v & 1u) != 0; }
auto see(bool v) -> bool { return v; }
auto see(nothing) -> bool { return false; }
template <auto N, typename E> auto see(stdx::bitset<N, E> const &b) -> bool { return b[0]; }
auto atomic_ops() -> std::vector<Op<At>> {
    return {
        {"load", kind::load, true, false, true, ORD(a.load(), a.load(*o))},
        {"conversion", kind::load, false, false, true, NOORD(static_cast<std::uint32_t>(a))},
        {"store", kind::store, true, true, false, ORD((a.store(1), nothing{}), (a.store(1, *o), nothing{}))},
        {"assignment", kind::store, false, true, false, NOORD((a = 1, nothing{}))},
        {"exchange(1)", kind::rmw, true, true, true, ORD(a.exchange(1), a.exchange(1, *o))},
        {"fetch_add(1)", kind::rmw, true, true, false, ORD(a.fetch_add(1), a.fetch_add(1, *o))},
        {"fetch_add(2)", kind::rmw, true, false, true, ORD(a.fetch_add(2), a.fetch_add(2, *o))},
        {"fetch_sub(-1)", kind::rmw, true, true, false, ORD(a.fetch_sub(~0u), a.fetch_sub(~0u, *o))},
        {"fetch_sub(2)", kind::rmw, true, false, true, ORD(a.fetch_sub(2), a.fetch_sub(2, *o))},
        {"fetch_and(-1)", kind::rmw, true, false, true, ORD(a.fetch_and(~0u), a.fetch_and(~0u, *o))},
        {"fetch_or(1)", kind::rmw, true, true, true, ORD(a.fetch_or(1), a.fetch_or(1, *o))},
        {"fetch_or(4)", kind::rmw, true, false, true, ORD(a.fetch_or(4), a.fetch_or(4, *o))},
        {"fetch_xor(1)", kind::rmw, true, true, false, ORD(a.fetch_xor(1), a.fetch_xor(1, *o))},
        {"fetch_xor(4)", kind::rmw, true, false, true, ORD(a.fetch_xor(4), a.fetch_xor(4, *o))},
        {"+= 1", kind::rmw, false, true, false, NOORD(a += 1)},
        {"+= 2", kind::rmw, false, false, true, NOORD(a += 2)},
        {"-= -1", kind::rmw, false, true, false, NOORD(a -= ~0u)},
        {"-= 2", kind::rmw, false, false, true, NOORD(a -= 2)},
        {"++x", kind::rmw, false, true, false, NOORD(++a)},
        {"x++", kind::rmw, false, true, true, NOORD(a++)},
        {"--x", kind::rmw, false, true, false, NOORD(--a)},
        {"x--", kind::rmw, false, true, true, NOORD(a--)},
        {"&= -1", kind::rmw, false, false, true, NOORD(a &= ~0u)},
        {"|= 1", kind::rmw, false, true, false, NOORD(a |= 1)},
        {"|= 4", kind::rmw, false, false, true, NOORD(a |= 4)},
        {"^= 1", kind::rmw, false, true, false, NOORD(a ^= 1)},
        {"^= 4", kind::rmw, false, false, true, NOORD(a ^= 4)},
    };
}
auto bitset_ops() -> std::vector<Op<Bs>> {
    return {
        {"load", kind::load, true, false, true, ORD(a.load(), a.load(*o))},
        {"conversion", kind::load, false, false, true, NOORD(static_cast<Bt>(a))},
        {"to", kind::load, true, false, true, ORD(a.template to<std::uint32_t>(), a.template to<std::uint32_t>(*o))},
        {"to_natural", kind::load, true, false, true, ORD(static_cast<std::uint32_t>(a.to_natural()), static_cast<std::uint32_t>(a.to_natural(*o)))},
        {"[0]", kind::load, false, false, true, NOORD(static_cast<bool>(a[0]))},
        {"any", kind::load, true, false, true, ORD(a.any(), a.any(*o))},
        {"none", kind::load, true, false, true, ORD(not a.none(), not a.none(*o))},
        {"all", kind::load, true, false, false, ORD(a.all(), a.all(*o))},
        {"count", kind::load, true, false, true, ORD(a.count() != 0, a.count(*o) != 0)},
        {"store", kind::store, true, true, false, ORD((a.store(Bt{1ul}), nothing{}), (a.store(Bt{1ul}, *o), nothing{}))},
        {"set()", kind::store, true, true, false, ORD((a.set(), nothing{}), (a.set(*o), nothing{}))},
        {"reset()", kind::store, true, false, false, ORD((a.reset(), nothing{}), (a.reset(*o), nothing{}))},
        {"flip()", kind::rmw, true, true, true, ORD(a.flip(), a.flip(*o))},
        {"set(0)", kind::rmw, true, true, true, ORD(a.set(0), a.set(0, true, *o))},
        {"set(3)", kind::rmw, true, false, true, ORD(a.set(3), a.set(3, true, *o))},
        {"set(3, false)", kind::rmw, true, false, true, ORD(a.set(3, false), a.set(3, false, *o))},
        {"set(0..2)", kind::rmw, true, true, true, ORD(a.set(0_lsb, 2_msb), a.set(0_lsb, 2_msb, true, *o))},
        {"set(1..2, false)", kind::rmw, true, false, true, ORD(a.set(1_lsb, 2_msb, false), a.set(1_lsb, 2_msb, false, *o))},
        {"set(0+2)", kind::rmw, true, true, true, ORD(a.set(0_lsb, 2_len), a.set(0_lsb, 2_len, true, *o))},
        {"set(1+2, false)", kind::rmw, true, false, true, ORD(a.set(1_lsb, 2_len, false), a.set(1_lsb, 2_len, false, *o))},
        {"reset(4)", kind::rmw, true, false, true, ORD(a.reset(4), a.reset(4, *o))},
        {"reset(1..5)", kind::rmw, true, false, true, ORD(a.reset(1_lsb, 5_msb), a.reset(1_lsb, 5_msb, *o))},
        {"reset(1+3)", kind::rmw, true, false, true, ORD(a.reset(1_lsb, 3_len), a.reset(1_lsb, 3_len, *o))},
        {"flip(0)", kind::rmw, true, true, true, ORD(a.flip(0), a.flip(0, *o))},
        {"flip(2)", kind::rmw, true, false, true, ORD(a.flip(2), a.flip(2, *o))},
        {"flip(0..1)", kind::rmw, true, true, true, ORD(a.flip(0_lsb, 1_msb), a.flip(0_lsb, 1_msb, *o))},
        {"flip(0+3)", kind::rmw, true, true, true, ORD(a.flip(0_lsb, 3_len), a.flip(0_lsb, 3_len, *o))},
    };
}
auto orders(kind k) -> std::vector<mo> {
    switch (k) {
    case kind::load: return {mo::relaxed, mo::consume, mo::acquire, mo::seq_cst};
    case kind::store: return {mo::relaxed, mo::release, mo::seq_cst};
    default: return {mo::relaxed, mo::consume, mo::acquire, mo::release, mo::acq_rel, mo::seq_cst};
    }
}
// ---- 1. the order that reaches the platform
struct Seen {
    kind k;
    mo o;
};
std::vector<Seen> seen;
template <typename A> void forwarded(std::vector<Op<A>> const &ops) {
    for (auto const &op : ops) {
        std::vector<std::optional<mo>> asked{std::nullopt};
        if (op.takes_order) {
            for (auto o : orders(op.k)) { asked.emplace_back(o); }
        }
        for (auto const &o : asked) {
            mc::Scope scp{[&] { return op.name + " with order " + (o ? name(*o) : "default"); }};
            conc_shim::reset();
            seen.clear();
            A a{};
            conc_shim::performed = [](conc_shim::cell &, kind k, mo x) { seen.push_back({k, x}); };
            (void)op.run(a, o);
            conc_shim::performed = nullptr;
            MC_CHECK(not seen.empty());
            // the part of the operation that does the work: a plain load is enough for loads only
            int got{};
            bool valid = true;
            for (auto const &s : seen) {
                got |= strength(s.o);
                if (s.k == kind::load and (s.o == mo::release or s.o == mo::acq_rel)) { valid = false; }
                if (s.k == kind::store and (s.o == mo::acquire or s.o == mo::consume or s.o == mo::acq_rel)) { valid = false; }
            }
            MC_CHECK(valid);
            auto const want = strength(o.value_or(mo::seq_cst));
            if ((got & want) != want) { mc::fail("the platform was asked for " + name(seen.front().o) + " only"); }
            bool exact{}; // the order asked for arrives as it was given
            for (auto const &s : seen) { exact = exact or s.o == o.value_or(mo::seq_cst); }
            if (not exact) { mc::fail("the platform was asked for " + name(seen.front().o)); }
            for (auto const &s : seen) { // each step at least as strong as asked for, as far as it can be
                int const can = s.k == kind::load ? 5 : s.k == kind::store ? 6 : 7;
                MC_EQ(strength(s.o) & want & can, want & can);
            }
            mc::step();
            mc::trace();
            mc::state(mc::hash_of(mc::hash_str(op.name), got));
        }
    }
}
MC_SECTION("forwarded") {
    forwarded(atomic_ops());
    forwarded(bitset_ops());
}
// ---- 2. message passing under all interleavings
using Clock = std::vector<int>;
std::array<Clock, 2> now;
void join(Clock &a, Clock const &b) {
    a.resize(2);
    for (size_t i{}; i < b.size(); ++i) { a[i] = std::max(a[i], b[i]); }
}
void sync(conc_shim::cell &c, kind k, mo o) {
    if (sched::running < 0) { return; }
    auto &me = now[static_cast<size_t>(sched::running)];
    auto const s = strength(o);
    bool const acquire = k != kind::store and (s & 1) != 0 and o != mo::consume;
    bool const release = k != kind::load and (s & 2) != 0;
    if (acquire) { join(me, c.clock); }
    if (k == kind::store) { // starts a new release sequence
        c.clock = release ? me : Clock{};
    } else if (k == kind::rmw and release) { // continues the release sequence
        join(c.clock, me);
    }
    ++me[static_cast<size_t>(sched::running)];
}
template <typename A> void message(std::vector<Op<A>> const &ops) {
    for (auto const &pub : ops) {
        if (not pub.publishes) { continue; }
        std::vector<std::optional<mo>> po{std::nullopt};
        if (pub.takes_order) {
            for (auto o : orders(pub.k)) {
                if ((strength(o) & 2) != 0) { po.emplace_back(o); }
            }
        }
        for (auto const &obs : ops) {
            if (not obs.observes) { continue; }
            std::vector<std::optional<mo>> oo{std::nullopt};
            if (obs.takes_order) {
                for (auto o : orders(obs.k)) {
                    if ((strength(o) & 1) != 0 and o != mo::consume) { oo.emplace_back(o); }
                }
            }
            for (auto const &p : po) {
                for (auto const &q : oo) {
                    bool ever{};
                    mc::all_choices([&](mc::Choices &c) {
                        conc_shim::reset();
                        now = {Clock{1, 0}, Clock{0, 1}};
                        A a{};
                        conc_shim::performed = sync;
                        int data{}, written_at{}, got{};
                        bool saw{}, raced{};
                        auto const schedule = sched::run(
                            {[&] {
                                 written_at = now[0][0];
                                 data = 42;
                                 (void)pub.run(a, p);
                             },
                             [&] {
                                 saw = obs.run(a, q);
                                 if (saw) {
                                     got = data;
                                     raced = now[1][0] < written_at;
                                 }
                             }},
                            c);
                        conc_shim::performed = nullptr;
                        if (saw) {
                            ever = true;
                            mc::Scope scp{[&] {
                                return "published by " + pub.name + " (" + (p ? name(*p) : "default") + "), seen by " + obs.name + " (" + (q ? name(*q) : "default") + "), steps taken by threads " + schedule;
                            }};
                            MC_EQ(got, 42);
                            if (raced) { mc::fail("the data is not visible to the thread that saw the publication"); }
                        }
                        mc::trace();
                        mc::state(mc::hash_of(mc::hash_str(pub.name), mc::hash_str(obs.name), saw));
                    });
                    mc::Scope scp{[&] { return "published by " + pub.name + ", seen by " + obs.name; }};
                    MC_CHECK(ever);
                }
            }
        }
    }
}
MC_SECTION("message_atomic") { message(atomic_ops()); }
MC_SECTION("message_bitset") { message(bitset_ops()); }
} // namespace
