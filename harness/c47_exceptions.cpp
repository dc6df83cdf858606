// Every operation of a user's type or callable that the library calls is made to throw, one at a time, on every bounded
// history: the exception must reach the caller, no element may be lost or destroyed twice, and the object must still be
// usable and hold what it held.
#include <stdx/algorithm.hpp>
#include <stdx/array.hpp>
#include <stdx/bitset.hpp>
#include <stdx/call_by_need.hpp>
#include <stdx/cx_map.hpp>
#include <stdx/cx_multimap.hpp>
#include <stdx/cx_queue.hpp>
#include <stdx/cx_set.hpp>
#include <stdx/cx_vector.hpp>
#include <stdx/for_each_n_args.hpp>
#include <stdx/functional.hpp>
#include <stdx/numeric.hpp>
#include <stdx/optional.hpp>
#include <stdx/tuple.hpp>
#include <stdx/tuple_algorithms.hpp>

#include <mc.hpp>
#include <array>
#include <compare>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <utility>
#include <vector>
namespace {
using std::size_t;
struct Boom {};
enum Kind : unsigned { make = 1, assign = 2, compare = 4, call = 8 };
int ticks{};         // operations done that may throw
int fuse{};          // the one that throws; 0: none
unsigned throwing{}; // kinds of operation that may throw
void tick(Kind k) {
    if ((throwing & k) != 0 and ++ticks == fuse) { throw Boom{}; } // (what follows while it is handled is counted, not thrown)
}
std::set<void const *> alive{};
struct Tok {
    int v{-7};
    Tok() {
        tick(make);
        born();
    }
    explicit(false) Tok(int i) : v{i} {
        tick(make);
        born();
    }
    Tok(Tok const &o) : v{(o.here("copied"), tick(make), o.v)} { born(); }
    Tok(Tok &&o) noexcept(false) : v{(o.here("moved"), tick(make), o.v)} {
        o.v = -1;
        born();
    }
    auto operator=(Tok const &o) -> Tok & {
        here("assigned");
        o.here("copied");
        tick(assign);
        v = o.v;
        return *this;
    }
    auto operator=(Tok &&o) noexcept(false) -> Tok & {
        here("assigned");
        o.here("moved");
        tick(assign);
        v = o.v;
        if (this != &o) { o.v = -1; }
        return *this;
    }
    ~Tok() {
        here("destroyed");
        alive.erase(this);
    }
    void born() {
        if (not alive.insert(this).second) { mc::fail("an element was constructed on top of a living one"); }
    }
    void here(char const *what) const {
        if (not alive.contains(this)) { mc::fail(std::string{"an element was "} + what + " that is not alive"); }
    }
    friend auto operator==(Tok const &a, Tok const &b) -> bool {
        a.here("compared");
        b.here("compared");
        tick(compare);
        return a.v == b.v;
    }
    friend auto operator<=>(Tok const &a, Tok const &b) -> std::strong_ordering {
        a.here("compared");
        b.here("compared");
        tick(compare);
        return a.v <=> b.v;
    }
};
} // namespace
template <> struct stdx::tombstone_traits<Tok> {
    auto operator()() const -> Tok {
        auto const keep = std::exchange(throwing, 0u); // a tombstone is always available
        Tok t{-9};
        throwing = keep;
        return t;
    }
};
namespace {
auto text(int v) -> std::string { return std::to_string(v); }
template <typename A, typename B> auto text(std::pair<A, B> const &p) -> std::string;
template <typename M>
    requires requires(M const &m) { m.begin(); }
auto text(M const &m) -> std::string {
    std::string s;
    for (auto const &e : m) { s += text(e) + ","; }
    return s;
}
template <typename A, typename B> auto text(std::pair<A, B> const &p) -> std::string { return text(p.first) + ":" + text(p.second); }

// an operation on the object, its effect on the model, the kinds of user operation that may throw in it, and whether it
// may have happened although it threw
struct Op {
    std::string name;
    std::function<void()> run;
    std::function<void()> model; // none: the object is only looked at
    unsigned kinds;
    bool may_have_happened{false};
};
// all histories: `before` operations that do not throw, one in which the k-th user operation throws (every k), `after`
// operations that do not throw
template <typename Sys> void histories(int before, int after) {
    mc::all_choices([&](mc::Choices &c) {
        alive.clear();
        throwing = 0;
        std::string h;
        mc::Scope scp{[&] { return "after:" + h; }};
        {
            Sys sys{};
            auto const plain = [&] {
                auto ops = sys.ops();
                std::erase_if(ops, [](auto const &o) { return not o.model; });
                if (ops.empty()) { return; }
                auto &op = ops[static_cast<size_t>(c.next(static_cast<int>(ops.size())))];
                h += " " + op.name + ";";
                op.run();
                op.model();
                mc::step();
                if (not sys.same()) { mc::fail("the object does not hold what it should"); }
            };
            for (int n = c.next(before + 1); n > 0; --n) { plain(); }
            auto ops = sys.ops();
            auto &op = ops[static_cast<size_t>(c.next(static_cast<int>(ops.size())))];
            // how many user operations does it do?  ask a twin
            int total{};
            {
                Sys twin{};
                twin.copy_state(sys);
                auto tops = twin.ops();
                throwing = op.kinds;
                ticks = 0;
                fuse = 0;
                tops[static_cast<size_t>(&op - ops.data())].run();
                total = ticks;
                throwing = 0;
            }
            if (total > 0) {
                fuse = 1 + c.next(total);
                h += " " + op.name + " throwing at user operation " + std::to_string(fuse) + " of " + std::to_string(total) + ";";
                bool thrown{};
                ticks = 0;
                throwing = op.kinds;
                try {
                    op.run();
                } catch (Boom const &) { thrown = true; }
                throwing = 0;
                mc::step();
                if (not thrown) { mc::fail("the exception did not reach the caller"); }
                fuse = 0;
                if (not sys.same()) {
                    if (op.may_have_happened and op.model) { op.model(); }
                    if (not sys.same()) { mc::fail("the object neither holds what it held nor what it would hold"); }
                }
                mc::state(mc::hash_str(sys.show()));
            }
            for (int n{}; n < after; ++n) { plain(); }
        }
        MC_EQ(alive.size(), size_t{});
    });
}
template <size_t N> struct VecSys {
    stdx::cx_vector<Tok, N> v{};
    std::vector<int> m{};
    void copy_state(VecSys const &o) { v = o.v, m = o.m; }
    auto same() const -> bool {
        bool r = v.size() == m.size();
        for (size_t i{}; r and i < m.size(); ++i) { r = v[i].v == m[i]; }
        return r;
    }
    auto show() const -> std::string { return text(m); }
    auto ops() -> std::vector<Op> {
        std::vector<Op> r;
        if (m.size() < N) {
            r.push_back({"push_back copy", [&] { Tok const t{1}; v.push_back(t); }, [&] { m.push_back(1); }, assign});
            r.push_back({"push_back move", [&] { v.push_back(Tok{2}); }, [&] { m.push_back(2); }, assign});
        }
        if (not m.empty()) {
            r.push_back({"pop_back", [&] { [[maybe_unused]] auto t = v.pop_back(); }, [&] { m.pop_back(); }, make, true});
            r.push_back({"equality", [&] { [[maybe_unused]] bool b = v == v; }, nullptr, compare});
        }
        r.push_back({"copy", [&] { auto c = v; }, nullptr, make});
        r.push_back({"resize_and_overwrite", [&] {
                         resize_and_overwrite(v, [](Tok *p, size_t) -> size_t {
                             tick(call);
                             p[0].v = 4;
                             return 1;
                         });
                     },
                     [&] { m.assign(1, 4); }, call});
        return r;
    }
};
template <size_t N> struct QueueSys {
    stdx::cx_queue<Tok, N> v{};
    std::deque<int> m{};
    void copy_state(QueueSys const &o) { v = o.v, m = o.m; }
    auto same() -> bool {
        if (v.size() != m.size()) { return false; }
        auto c = v;
        for (auto e : m) {
            if (c.front().v != e or c.pop().v != e) { return false; }
        }
        return m.empty() or v.back().v == m.back();
    }
    auto show() const -> std::string { return text(m); }
    auto ops() -> std::vector<Op> {
        std::vector<Op> r;
        if (m.size() < N) {
            auto const x = static_cast<int>(m.size()) + 1;
            r.push_back({"push copy", [&, x] { Tok const t{x}; v.push(t); }, [&, x] { m.push_back(x); }, assign});
            r.push_back({"push move", [&, x] { v.push(Tok{10 + x}); }, [&, x] { m.push_back(10 + x); }, assign});
        }
        if (not m.empty()) {
            // (a move into the result, which throws, is the only user operation that may follow the removal)
            r.push_back({"pop", [&] { [[maybe_unused]] auto t = v.pop(); }, [&] { m.pop_front(); }, make, true});
        }
        return r;
    }
};
template <size_t N> struct SetSys {
    stdx::cx_set<Tok, N> v{};
    std::set<int> m{};
    void copy_state(SetSys const &o) { v = o.v, m = o.m; }
    auto same() const -> bool {
        std::multiset<int> c;
        for (auto const &t : v) { c.insert(t.v); }
        return c == std::multiset<int>(m.begin(), m.end()) and v.size() == m.size();
    }
    auto show() const -> std::string { return text(m); }
    auto ops() -> std::vector<Op> {
        std::vector<Op> r;
        for (int k{}; k < 3; ++k) {
            if (m.size() < N or m.contains(k)) {
                r.push_back({"insert copy " + text(k), [&, k] { Tok const t{k}; v.insert(t); }, [&, k] { m.insert(k); }, assign | compare});
                r.push_back({"insert move " + text(k), [&, k] { v.insert(Tok{k}); }, [&, k] { m.insert(k); }, assign | compare});
            }
            r.push_back({"erase " + text(k), [&, k] { Tok const t{k}; v.erase(t); }, [&, k] { m.erase(k); }, assign | compare});
            r.push_back({"contains " + text(k), [&, k] { Tok const t{k}; [[maybe_unused]] bool b = v.contains(t); }, nullptr, compare});
        }
        if (not m.empty()) {
            auto const k = (v.end() - 1)->v;
            r.push_back({"pop_back", [&] { [[maybe_unused]] auto t = v.pop_back(); }, [&, k] { m.erase(k); }, make, true});
        }
        return r;
    }
};
// keys throw when compared, values in everything
template <size_t N> struct MapSys {
    stdx::cx_map<Tok, Tok, N> v{};
    std::map<int, int> m{};
    void copy_state(MapSys const &o) { v = o.v, m = o.m; }
    auto same() const -> bool {
        std::multimap<int, int> c;
        for (auto const &e : v) { c.emplace(e.key.v, e.value.v); }
        return c == std::multimap<int, int>(m.begin(), m.end()) and v.size() == m.size();
    }
    auto show() const -> std::string { return text(m); }
    auto ops() -> std::vector<Op> {
        std::vector<Op> r;
        for (int k{}; k < 3; ++k) {
            if (m.size() < N or m.contains(k)) {
                r.push_back({"insert_or_assign " + text(k),
                             [&, k] {
                                 auto const keep = std::exchange(throwing, 0u);
                                 Tok const kt{k}, t{7};
                                 throwing = keep;
                                 v.insert_or_assign(kt, t);
                             },
                             [&, k] { m[k] = 7; }, make | assign | compare});
                r.push_back({"put " + text(k),
                             [&, k] {
                                 auto const keep = std::exchange(throwing, 0u);
                                 Tok const kt{k}, t{8};
                                 throwing = keep;
                                 v.put(kt, t);
                             },
                             [&, k] { m[k] = 8; }, make | assign | compare});
            }
            r.push_back({"erase " + text(k), [&, k] { Tok const t{k}; v.erase(t); }, [&, k] { m.erase(k); }, compare});
            r.push_back({"contains " + text(k), [&, k] { Tok const t{k}; [[maybe_unused]] bool b = v.contains(t); }, nullptr, compare});
            if (m.contains(k)) {
                r.push_back({"get " + text(k), [&, k] { Tok const t{k}; [[maybe_unused]] auto &b = v.get(t); }, nullptr, compare});
            }
        }
        return r;
    }
};
struct MultimapSys {
    stdx::cx_multimap<int, Tok, 2, 2> v{};
    std::map<int, std::set<int>> m{};
    void copy_state(MultimapSys const &o) { v = o.v, m = o.m; }
    auto same() const -> bool {
        std::map<int, std::set<int>> c;
        size_t n{};
        for (auto const &e : v) {
            auto &s = c[e.key];
            for (auto const &t : e.value) { s.insert(t.v), ++n; }
        }
        size_t w{};
        for (auto const &[k, s] : m) { w += s.size(); }
        return c == m and n == w and v.size() == m.size();
    }
    auto show() const -> std::string { return text(m); }
    auto ops() -> std::vector<Op> {
        std::vector<Op> r;
        for (int k{}; k < 2; ++k) {
            for (int x{}; x < 2; ++x) {
                r.push_back({"insert " + text(k) + " " + text(x),
                             [&, k, x] {
                                 auto const keep = std::exchange(throwing, 0u);
                                 Tok const t{x};
                                 throwing = keep;
                                 v.insert(k, t);
                             },
                             [&, k, x] { m[k].insert(x); }, make | assign | compare});
                r.push_back({"contains " + text(k) + " " + text(x),
                             [&, k, x] { Tok const t{x}; [[maybe_unused]] bool b = v.contains(k, t); }, nullptr, compare});
            }
        }
        return r;
    }
};
struct OptSys {
    stdx::optional<Tok> v{};
    std::optional<int> m{};
    void copy_state(OptSys const &o) { v = o.v, m = o.m; }
    auto same() const -> bool { return v.has_value() == m.has_value() and (not m or v->v == *m); }
    auto show() const -> std::string { return m ? text(*m) : "-"; }
    auto ops() -> std::vector<Op> {
        std::vector<Op> r;
        // a failed emplace has destroyed the old value: the optional is empty
        r.push_back({"emplace 1",
                     [&] {
                         try {
                             v.emplace(1);
                         } catch (...) {
                             m.reset();
                             throw;
                         }
                     },
                     [&] { m = 1; }, make});
        r.push_back({"emplace copy",
                     [&] {
                         auto const keep = std::exchange(throwing, 0u);
                         Tok const t{2};
                         throwing = keep;
                         try {
                             v.emplace(t);
                         } catch (...) {
                             m.reset();
                             throw;
                         }
                     },
                     [&] { m = 2; }, make});
        r.push_back({"assign copy", [&] { Tok const t{3}; v = t; }, [&] { m = 3; }, assign});
        r.push_back({"assign move", [&] { v = Tok{4}; }, [&] { m = 4; }, assign});
        r.push_back({"assign optional",
                     [&] {
                         stdx::optional<Tok> o{5};
                         v = o;
                     },
                     [&] { m = 5; }, assign});
        r.push_back({"assign moved optional", [&] { v = stdx::optional<Tok>{6}; }, [&] { m = 6; }, assign});
        r.push_back({"reset", [&] { v.reset(); }, [&] { m.reset(); }, call});
        r.push_back({"assign nullopt", [&] { v = std::nullopt; }, [&] { m.reset(); }, call});
        r.push_back({"copy", [&] { auto o = v; }, nullptr, make});
        r.push_back({"value_or", [&] { [[maybe_unused]] auto t = v.value_or(9); }, nullptr, make});
        auto const f = [](Tok const &t) {
            tick(call);
            return Tok{t.v};
        };
        auto const g = [](Tok const &t) {
            tick(call);
            return stdx::optional<Tok>{t.v};
        };
        auto const h = [] {
            tick(call);
            return stdx::optional<Tok>{11};
        };
        r.push_back({"transform", [this, f] { [[maybe_unused]] auto o = v.transform(f); }, nullptr, make | call});
        r.push_back({"const transform", [this, f] { [[maybe_unused]] auto o = std::as_const(v).transform(f); }, nullptr, make | call});
        r.push_back({"and_then", [this, g] { [[maybe_unused]] auto o = v.and_then(g); }, nullptr, make | call});
        r.push_back({"const and_then", [this, g] { [[maybe_unused]] auto o = std::as_const(v).and_then(g); }, nullptr, make | call});
        r.push_back({"pipe", [this, g] { [[maybe_unused]] auto o = v | g; }, nullptr, make | call});
        r.push_back({"or_else", [this, h] { [[maybe_unused]] auto o = v.or_else(h); }, nullptr, make | call});
        r.push_back({"stdx::transform",
                     [this] {
                         auto const two = [](Tok const &a, Tok const &b) {
                             tick(call);
                             return Tok{a.v + b.v};
                         };
                         [[maybe_unused]] auto o = stdx::transform(two, v, v);
                     },
                     nullptr, make | call});
        return r;
    }
};

// a function that watches its calls: in a run where the k-th call throws exactly the first k calls of the undisturbed run are made
std::vector<std::vector<int>> calls{};
auto number(int i) -> int { return i; }
auto number(Tok const &t) -> int { return t.v; }
struct Fn {
    template <typename... A> auto operator()(A const &...a) const -> int {
        calls.push_back({number(a)...});
        tick(call);
        return (0 + ... + number(a));
    }
};
struct Pred {
    bool result;
    template <typename... A> auto operator()(A const &...a) const -> bool {
        Fn{}(a...);
        return result;
    }
};
template <typename Run> void faults(std::string const &name, Run run, unsigned kinds = call) {
    int at{};
    mc::Scope scp{[&] { return name + ", user operation " + std::to_string(at) + " throws"; }};
    throwing = 0, fuse = 0, ticks = 0;
    alive.clear();
    calls.clear();
    throwing = kinds;
    run();
    throwing = 0;
    MC_EQ(alive.size(), size_t{});
    auto const want = calls;
    auto const total = ticks;
    mc::trace();
    for (at = 1; at <= total; ++at) {
        calls.clear();
        ticks = 0, fuse = at;
        bool thrown{};
        throwing = kinds;
        try {
            run();
        } catch (Boom const &) { thrown = true; }
        throwing = 0;
        fuse = 0;
        MC_CHECK(thrown);
        MC_EQ(ticks, at);
        MC_EQ(alive.size(), size_t{});
        auto const k = calls.size();
        MC_CHECK(k <= want.size() and std::equal(calls.begin(), calls.end(), want.begin()));
        if (kinds == call) { MC_EQ(k, static_cast<size_t>(at)); }
        mc::step();
        mc::trace();
        mc::state(mc::hash_of(mc::hash_str(name), at, k));
    }
}
} // namespace

#if MC_IN_PART(0)
MC_SECTION("vector") {
    histories<VecSys<2>>(3, 2);
    histories<VecSys<3>>(mc::thorough ? 4 : 3, 1);
}
MC_SECTION("queue") {
    histories<QueueSys<1>>(3, 3);
    histories<QueueSys<2>>(5, 2);
    histories<QueueSys<3>>(mc::thorough ? 7 : 6, 2);
}
MC_SECTION("set") {
    histories<SetSys<2>>(2, 1);
    histories<SetSys<3>>(mc::thorough ? 3 : 2, mc::thorough ? 1 : 0);
}
MC_SECTION("map") {
    histories<MapSys<2>>(2, 1);
    histories<MapSys<3>>(mc::thorough ? 3 : 2, mc::thorough ? 1 : 0);
}
MC_SECTION("multimap") { histories<MultimapSys>(2, mc::thorough ? 2 : 1); }
MC_SECTION("optional") { histories<OptSys>(mc::thorough ? 2 : 1, 2); }
#endif

#if MC_IN_PART(1)
MC_SECTION("ranges") {
    for (int n{}; n <= 4; ++n) {
        std::vector<int> a, b;
        for (int i{}; i < n; ++i) { a.push_back(i + 1), b.push_back(10 * i); }
        std::list<int> const l(a.begin(), a.end());
        auto const s = " of " + std::to_string(n);
        std::vector<int> out(a.size());
        faults("for_each" + s, [&] { stdx::for_each(a.begin(), a.end(), Fn{}); });
        faults("for_each two" + s, [&] { stdx::for_each(a.begin(), a.end(), Fn{}, b.begin()); });
        faults("for_each_n" + s, [&] { stdx::for_each_n(a.begin(), n, Fn{}); });
        faults("for_each_n two" + s, [&] { stdx::for_each_n(a.begin(), n, Fn{}, b.begin()); });
        faults("transform" + s, [&] { stdx::transform(a.begin(), a.end(), out.begin(), Fn{}); });
        faults("transform two" + s, [&] { stdx::transform(a.begin(), a.end(), out.begin(), Fn{}, b.begin()); });
        faults("transform_n" + s, [&] { stdx::transform_n(a.begin(), n, out.begin(), Fn{}); });
        faults("for_each_butlast" + s, [&] { stdx::for_each_butlast(a.begin(), a.end(), Fn{}); });
        faults("list for_each_butlast" + s, [&] { stdx::for_each_butlast(l.begin(), l.end(), Fn{}); });
        faults("for_each_butlastn" + s, [&] { stdx::for_each_butlastn(a.begin(), a.end(), 2, Fn{}); });
        faults("list for_each_butlastn" + s, [&] { stdx::for_each_butlastn(l.begin(), l.end(), 2, Fn{}); });
        faults("initial_medial_final" + s, [&] { stdx::initial_medial_final(a.begin(), a.end(), Fn{}, Fn{}, Fn{}); });
        faults("transform_reduce" + s, [&] { stdx::transform_reduce(a.begin(), a.end(), 0, Fn{}, Fn{}); });
        faults("transform_reduce_n" + s, [&] { stdx::transform_reduce_n(a.begin(), n, 0, Fn{}, Fn{}); });
        faults("transform_reduce two" + s, [&] { stdx::transform_reduce(a.begin(), a.end(), 0, Fn{}, Fn{}, b.begin()); });
        // written elements are those of the calls that returned
        for (int k = 1; k <= n; ++k) {
            std::vector<int> o(a.size(), -1);
            ticks = 0, fuse = k, throwing = call;
            try {
                stdx::transform(a.begin(), a.end(), o.begin(), Fn{});
            } catch (Boom const &) {}
            throwing = 0;
            for (int i{}; i < n; ++i) { MC_EQ(o[static_cast<size_t>(i)], i + 1 < k ? i + 1 : -1); }
        }
    }
    for (unsigned v{}; v < 32; ++v) {
        auto const s = " of bits " + std::to_string(v);
        using B = stdx::bitset<5, std::uint8_t>;
        using W = stdx::bitset<70, std::uint8_t>;
        B bs{v};
        W w{v};
        w <<= 63;
        faults("bitset for_each" + s, [&] { for_each([](auto i) { Fn{}(static_cast<int>(i)); }, bs); });
        faults("wide bitset for_each" + s, [&] { for_each([](auto i) { Fn{}(static_cast<int>(i)); }, w); });
        faults("bitset transform_reduce" + s, [&] {
            [[maybe_unused]] auto r = transform_reduce([](auto i) { return Fn{}(static_cast<int>(i)); }, Fn{}, 0, bs);
        });
    }
}
MC_SECTION("functions") {
    faults("for_each_n_args 1", [] { stdx::for_each_n_args<1>(Fn{}, 1, 2, 3, 4); });
    faults("for_each_n_args 2", [] { stdx::for_each_n_args<2>(Fn{}, 1, 2, 3, 4, 5, 6); });
    faults("for_each_n_args 3", [] { stdx::for_each_n_args<3>(Fn{}, 1, 2, 3, 4, 5, 6); });
    faults("bind_front", [] { stdx::bind_front(Fn{}, 1, 2)(3); });
    faults("bind_back", [] { stdx::bind_back(Fn{}, 1, 2)(3); });
    faults("bind_front value", [] { stdx::bind_front<Fn{}>(1, 2)(3); });
    faults("bind_back value", [] { stdx::bind_back<Fn{}>(1, 2)(3); });
    faults("bind_front elements", [] { auto b = stdx::bind_front(Fn{}, Tok{1}, Tok{2}); std::move(b)(Tok{3}); }, make | call);
    faults("bind_back elements", [] { auto b = stdx::bind_back(Fn{}, Tok{1}, Tok{2}); b(Tok{3}); }, make | call);
    faults("with_result_of", [] { int i = stdx::with_result_of{[] { return Fn{}(4); }}; (void)i; });
    faults("const with_result_of", [] { auto const w = stdx::with_result_of{[] { return Fn{}(4); }}; int i = w; (void)i; });
    faults("mutable with_result_of", [] { auto w = stdx::with_result_of{[n = 3]() mutable { return Fn{}(++n); }}; int i = w; (void)i; });
    faults("emplace_back with_result_of", [] { std::vector<Tok> v; v.emplace_back(stdx::with_result_of{[] { Fn{}(4); return Tok{4}; }}); }, call | make);
    faults("call_by_need", [] {
        [[maybe_unused]] auto r = stdx::call_by_need(
            stdx::tuple{[](int i) { return Fn{}(i); }, [](int i, int j) { return Fn{}(i, j); }}, stdx::tuple{1, 2});
    });
    faults("call_by_need elements", [] {
        [[maybe_unused]] auto r = stdx::call_by_need(
            stdx::tuple{[](Tok const &i) { return Fn{}(i); }, [](Tok const &i, Tok const &j) { Fn{}(i, j); return Tok{5}; }},
            stdx::tuple{Tok{1}, Tok{2}});
    }, call | make);
    faults("make_array", [] { [[maybe_unused]] auto a = stdx::make_array<Tok>(Tok{1}, Tok{2}, Tok{3}); }, make);
    faults("make_array from calls", [] { [[maybe_unused]] auto a = stdx::make_array<3>([]<auto V>() { Fn{}(static_cast<int>(V)); return Tok{1}; }); }, make | call);
    faults("type_bitset for_each", [] {
        auto tb = stdx::type_bitset<int, char, float>{stdx::all_bits};
        tb.for_each([]<typename T, auto I>() { Fn{}(static_cast<int>(I)); });
    });
}
#endif

#if MC_IN_PART(2)
namespace {
template <size_t... I> void tuples(std::index_sequence<I...>) {
    auto const s = " of " + std::to_string(sizeof...(I));
    constexpr auto all = make | assign | compare | call;
    faults("construct" + s, [] { auto t = stdx::tuple{Tok{static_cast<int>(I)}...}; }, all);
    faults("make_tuple" + s, [] { [[maybe_unused]] auto t = stdx::make_tuple(Tok{static_cast<int>(I)}...); }, all);
    auto const mk = [] { return stdx::tuple{Tok{static_cast<int>(I)}...}; };
    faults("copy" + s, [&] { auto t = mk(); auto u = t; }, all);
    faults("move" + s, [&] { auto t = mk(); auto u = std::move(t); }, all);
    faults("assign" + s, [&] { auto t = mk(); auto u = mk(); t = u; }, all);
    faults("move assign" + s, [&] { auto t = mk(); auto u = mk(); t = std::move(u); }, all);
    faults("compare" + s, [&] { auto t = mk(); auto u = mk(); [[maybe_unused]] bool b = t == u; }, all);
    faults("order" + s, [&] { auto t = mk(); auto u = mk(); [[maybe_unused]] auto b = t < u; }, all);
    faults("apply member" + s, [&] { auto t = mk(); t.apply(Fn{}); }, all);
    faults("apply" + s, [&] { auto t = mk(); auto u = mk(); stdx::apply(Fn{}, t, u); }, all);
    faults("for_each" + s, [&] { auto t = mk(); stdx::for_each(Fn{}, t); }, all);
    faults("for_each two" + s, [&] { auto t = mk(); stdx::for_each(Fn{}, t, mk()); }, all);
    faults("enumerate" + s, [&] {
        auto t = mk();
        stdx::enumerate([]<auto Idx>(auto const &x) { Fn{}(static_cast<int>(Idx), x); }, t);
    }, all);
    faults("tuple_cat" + s, [&] { auto t = mk(); [[maybe_unused]] auto u = stdx::tuple_cat(t, mk()); }, all);
    faults("tuple_cons" + s, [&] { [[maybe_unused]] auto u = stdx::tuple_cons(Tok{5}, mk()); }, all);
    faults("tuple_snoc" + s, [&] { [[maybe_unused]] auto u = stdx::tuple_snoc(mk(), Tok{5}); }, all);
    faults("fold_left" + s, [&] { auto t = mk(); t.fold_left(0, Fn{}); }, all);
    faults("fold_right" + s, [&] { auto t = mk(); t.fold_right(0, Fn{}); }, all);
    faults("join" + s, [&] { auto t = mk(); t.join(Tok{9}, [](Tok a, Tok const &b) { return Tok{Fn{}(a, b)}; }); }, all);
    faults("all_of" + s, [&] { auto t = mk(); [[maybe_unused]] bool b = stdx::all_of(Pred{true}, t); }, all);
    faults("any_of" + s, [&] { auto t = mk(); [[maybe_unused]] bool b = stdx::any_of(Pred{false}, t); }, all);
    faults("none_of" + s, [&] { auto t = mk(); [[maybe_unused]] bool b = stdx::none_of(Pred{false}, t); }, all);
    faults("transform" + s, [&] { auto t = mk(); [[maybe_unused]] auto u = stdx::transform([](Tok const &x) { Fn{}(x); return Tok{x.v}; }, t); }, all);
    faults("sort" + s, [&] { [[maybe_unused]] auto u = stdx::sort(mk()); }, all);
    faults("chunk" + s, [&] { auto t = mk(); [[maybe_unused]] auto u = stdx::chunk(t); }, all);
    faults("gather" + s, [&] { [[maybe_unused]] auto u = stdx::gather(mk()); }, all);
    faults("unique" + s, [&] { [[maybe_unused]] auto u = stdx::unique(mk()); }, all);
    faults("to_unsorted_set" + s, [&] { auto t = mk(); [[maybe_unused]] auto u = stdx::to_unsorted_set(t); }, all);
    faults("cartesian_product_copy" + s, [&] { auto t = mk(); [[maybe_unused]] auto u = stdx::cartesian_product_copy(t, t); }, all);
    faults("filter" + s, [&] { auto t = mk(); [[maybe_unused]] auto u = stdx::filter<std::is_class>(t); }, all);
}
} // namespace
MC_SECTION("tuple_0") { tuples(std::make_index_sequence<0>{}); }
MC_SECTION("tuple_1") { tuples(std::make_index_sequence<1>{}); }
MC_SECTION("tuple_2") { tuples(std::make_index_sequence<2>{}); }
MC_SECTION("tuple_3") { tuples(std::make_index_sequence<3>{}); }
#endif
