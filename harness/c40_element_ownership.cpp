// Every history of a bounded length over pairs of containers whose elements own memory and watch how they are treated.
#include <stdx/cx_map.hpp>
#include <stdx/cx_queue.hpp>
#include <stdx/cx_set.hpp>
#include <stdx/cx_vector.hpp>
#include <stdx/optional.hpp>

#include <mc.hpp>
#include <algorithm>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>
namespace {
using std::size_t;
std::set<void const *> alive{};
struct Tok {
    enum State { blank, full, gone };
    State st{blank};
    std::unique_ptr<int> mem{};
    Tok() { born(); }
    explicit(false) Tok(int v) : st{full}, mem{std::make_unique<int>(v)} { born(); }
    Tok(Tok const &o) : st{o.st} {
        o.here("copied");
        if (o.mem) { mem = std::make_unique<int>(*o.mem); }
        born();
    }
    Tok(Tok &&o) noexcept {
        o.here("moved");
        st = o.st;
        mem = std::move(o.mem);
        if (o.st == full) { o.st = gone; }
        born();
    }
    auto operator=(Tok const &o) -> Tok & {
        here("assigned");
        o.here("copied");
        if (this != &o) {
            st = o.st;
            mem = o.mem ? std::make_unique<int>(*o.mem) : nullptr;
        }
        return *this;
    }
    auto operator=(Tok &&o) noexcept -> Tok & {
        here("assigned");
        o.here("moved");
        if (this == &o) { // legal, but the value is lost
            if (st == full) { st = gone; }
            mem.reset();
            return *this;
        }
        st = o.st;
        mem = std::move(o.mem);
        if (o.st == full) { o.st = gone; }
        return *this;
    }
    ~Tok() {
        here("destroyed");
        alive.erase(this);
    }
    void born() {
        if (not alive.insert(this).second) { mc::fail("an element was constructed on top of a living one"); }
    }
    void here(char const *what) const {
        if (not alive.contains(this)) { mc::fail(std::string{"an element was "} + what + " that is not alive"); }
    }
    [[nodiscard]] auto get() const -> int {
        here("read");
        if (st == gone) { mc::fail("an element was read after it was moved from"); }
        if (st == blank) { mc::fail("an element was read that was never given a value"); }
        return *mem;
    }
    void set(int v) {
        here("changed");
        st = full;
        mem = std::make_unique<int>(v);
    }
    friend auto operator==(Tok const &a, Tok const &b) -> bool {
        a.here("compared");
        b.here("compared");
        if (a.st == gone or b.st == gone) { mc::fail("an element was compared after it was moved from"); }
        return a.st == b.st and (a.st == blank or *a.mem == *b.mem);
    }
    friend auto operator<(Tok const &a, Tok const &b) -> bool { return a.get() < b.get(); }
};
} // namespace
template <> struct stdx::tombstone_traits<Tok> {
    auto operator()() const -> Tok { return Tok{}; }
};
namespace {
struct Op {
    std::string name;
    std::function<void()> run;
};
auto text(int v) -> std::string { return std::to_string(v); }
template <typename A, typename B> auto text(std::pair<A, B> const &p) -> std::string { return text(p.first) + ":" + text(p.second); }
template <typename M> auto text(M const &m) -> std::string {
    std::string s;
    for (auto const &e : m) { s += text(e) + ","; }
    return s;
}
// explores all histories of `depth` enabled operations; mk builds a fresh pair of objects
template <typename Sys> void histories(int depth, int variants) {
    for (int variant{}; variant < variants; ++variant) {
        mc::all_choices([&](mc::Choices &c) {
            alive.clear();
            std::string h = "start " + std::to_string(variant);
            mc::Scope scp{[&] { return h; }};
            {
                Sys sys{variant};
                sys.check();
                for (int k{}; k < depth; ++k) {
                    auto ops = sys.ops();
                    auto &op = ops[static_cast<size_t>(c.next(static_cast<int>(ops.size())))];
                    h += "; " + op.name;
                    op.run();
                    sys.check();
                    mc::step();
                    mc::state(mc::hash_str(text(sys.ma) + "|" + text(sys.mb)));
                }
            }
            MC_EQ(alive.size(), size_t{});
            mc::trace();
        });
    }
}
// copying, moving and swapping two objects with their models
template <typename T, typename M> void pair_ops(std::vector<Op> &r, T &a, T &b, M &ma, M &mb) {
    r.push_back({"B = A", [&] { b = a; mb = ma; }});
    r.push_back({"A = A", [&] {
                     auto &same = a;
                     a = same;
                 }});
    r.push_back({"A = move(B), B = {}", [&] {
                     a = std::move(b);
                     b = T{};
                     ma = std::exchange(mb, M{});
                 }});
    r.push_back({"swap", [&] {
                     std::swap(a, b);
                     std::swap(ma, mb);
                 }});
    r.push_back({"A copied and dropped", [&] {
                     T c{a};
                     T d{std::move(c)};
                 }});
}
#if MC_IN_PART(0)
struct VecSys {
    using C = stdx::cx_vector<Tok, 2>;
    C a{}, b{};
    std::vector<int> ma{}, mb{};
    int next{1};
    explicit VecSys(int variant) {
        for (int i{}; i < variant; ++i) {
            a.push_back(Tok{next});
            ma.push_back(next++);
        }
    }
    static void same(C &c, std::vector<int> const &m) {
        MC_EQ(c.size(), m.size());
        size_t i{};
        for (auto const &e : c) { MC_EQ(e.get(), m.at(i++)); }
        if (not m.empty()) {
            MC_EQ(c.front().get(), m.front());
            MC_EQ(c.back().get(), m.back());
        }
    }
    void check() {
        same(a, ma);
        same(b, mb);
        MC_EQ(a == b, ma == mb);
    }
    auto ops() -> std::vector<Op> {
        std::vector<Op> r;
        if (not a.full()) {
            r.push_back({"push_back(lvalue)", [this] {
                             Tok t{next};
                             auto &x = a.push_back(t);
                             MC_EQ(t.get(), next);
                             MC_CHECK(&x == &a.back());
                             ma.push_back(next++);
                             t.set(99);
                         }});
            r.push_back({"push_back(rvalue)", [this] {
                             Tok t{next};
                             auto &x = a.push_back(std::move(t));
                             MC_CHECK(t.st == Tok::gone);
                             MC_CHECK(&x == &a.back());
                             ma.push_back(next++);
                         }});
            if (not ma.empty()) {
                r.push_back({"push_back(A.front())", [this] {
                                 a.push_back(a.front());
                                 ma.push_back(ma.front());
                             }});
            }
        }
        if (not ma.empty()) {
            r.push_back({"pop_back", [this] {
                             auto t = a.pop_back();
                             MC_EQ(t.get(), ma.back());
                             ma.pop_back();
                             t.set(98);
                         }});
            r.push_back({"change front", [this] {
                             a.front().set(next);
                             ma.front() = next++;
                         }});
            r.push_back({"change A[last]", [this] {
                             a[a.size() - 1].set(next);
                             ma.back() = next++;
                         }});
        }
        r.push_back({"clear", [this] { a.clear(); ma.clear(); }});
        pair_ops(r, a, b, ma, mb);
        return r;
    }
};
MC_SECTION("vector") { histories<VecSys>(mc::thorough ? 6 : 5, 3); }
MC_SECTION("vector_construct") {
    alive.clear();
    {
        Tok const x{1};
        Tok y{2};
        stdx::cx_vector<Tok, 3> v{x, y, Tok{3}};
        stdx::cx_vector d{x, y};
        static_assert(std::is_same_v<decltype(d), stdx::cx_vector<Tok, 2>>);
        y.set(50);
        MC_EQ(v[0].get(), 1);
        MC_EQ(v[1].get(), 2);
        MC_EQ(v[2].get(), 3);
        MC_EQ(d[0].get(), 1);
        MC_EQ(d[1].get(), 2);
        MC_EQ(x.get(), 1);
    }
    MC_EQ(alive.size(), size_t{});
    mc::trace();
    mc::step(3);
}
#endif
#if MC_IN_PART(1)
struct QueueSys {
    using C = stdx::cx_queue<Tok, 2>;
    C a{}, b{};
    std::deque<int> ma{}, mb{};
    int next{1};
    explicit QueueSys(int variant) { // variant: how far the queue has already turned
        for (int i{}; i < variant; ++i) {
            a.push(Tok{next++});
            (void)a.pop();
        }
    }
    static void same(C const &c, std::deque<int> const &m) {
        MC_EQ(c.size(), m.size());
        if (not m.empty()) {
            MC_EQ(c.front().get(), m.front());
            MC_EQ(c.back().get(), m.back());
        }
        C copy{c};
        for (auto v : m) {
            auto const t = copy.pop();
            MC_EQ(t.get(), v);
        }
    }
    void check() {
        same(a, ma);
        same(b, mb);
    }
    auto ops() -> std::vector<Op> {
        std::vector<Op> r;
        if (not a.full()) {
            r.push_back({"push(lvalue)", [this] {
                             Tok t{next};
                             auto &x = a.push(t);
                             MC_EQ(t.get(), next);
                             MC_CHECK(&x == &a.back());
                             ma.push_back(next++);
                             t.set(99);
                         }});
            r.push_back({"push(rvalue)", [this] {
                             Tok t{next};
                             auto &x = a.push(std::move(t));
                             MC_CHECK(t.st == Tok::gone);
                             MC_CHECK(&x == &a.back());
                             ma.push_back(next++);
                         }});
            if (not ma.empty()) {
                r.push_back({"push(A.front())", [this] {
                                 a.push(a.front());
                                 ma.push_back(ma.front());
                             }});
            }
        }
        if (not ma.empty()) {
            r.push_back({"pop", [this] {
                             auto t = a.pop();
                             MC_EQ(t.get(), ma.front());
                             ma.pop_front();
                             t.set(98);
                         }});
            r.push_back({"change front", [this] {
                             a.front().set(next);
                             ma.front() = next++;
                         }});
            r.push_back({"change back", [this] {
                             a.back().set(next);
                             ma.back() = next++;
                         }});
        }
        r.push_back({"clear", [this] { a.clear(); ma.clear(); }});
        pair_ops(r, a, b, ma, mb);
        return r;
    }
};
MC_SECTION("queue") { histories<QueueSys>(mc::thorough ? 6 : 5, 3); }
// move-only elements
MC_SECTION("queue_move_only") {
    mc::all_choices([&](mc::Choices &c) {
        stdx::cx_queue<std::unique_ptr<int>, 2> q{};
        std::deque<int> m;
        std::string h;
        mc::Scope scp{[&] { return h; }};
        for (int k{}; k < 10; ++k) {
            bool const push = m.empty() or (m.size() < 2 and c.next(2) == 0);
            if (push) {
                q.push(std::make_unique<int>(k));
                m.push_back(k);
                h += " push";
            } else {
                auto p = q.pop();
                MC_CHECK(p and *p == m.front());
                m.pop_front();
                h += " pop";
            }
            if (not m.empty()) {
                MC_CHECK(q.front() and *q.front() == m.front());
                MC_CHECK(q.back() and *q.back() == m.back());
            }
            mc::step();
        }
        mc::trace();
    });
}
#endif
#if MC_IN_PART(2)
struct SetSys {
    using C = stdx::cx_set<Tok, 3>;
    C a{}, b{};
    std::set<int> ma{}, mb{};
    int next{1};
    explicit SetSys(int variant) {
        for (int i{}; i < variant; ++i) {
            a.insert(Tok{next});
            ma.insert(next++);
        }
    }
    static void same(C const &c, std::set<int> const &m) {
        MC_EQ(c.size(), m.size());
        std::set<int> seen;
        for (auto const &e : c) { seen.insert(e.get()); }
        MC_CHECK(seen == m);
        for (auto v : m) { MC_CHECK(c.contains(Tok{v})); }
    }
    void check() {
        same(a, ma);
        same(b, mb);
    }
    auto ops() -> std::vector<Op> {
        std::vector<Op> r;
        if (ma.size() < 3) {
            r.push_back({"insert(lvalue)", [this] {
                             Tok t{next};
                             MC_CHECK(a.insert(t));
                             MC_EQ(t.get(), next);
                             ma.insert(next++);
                             t.set(99);
                         }});
            r.push_back({"insert(rvalue)", [this] {
                             Tok t{next};
                             MC_CHECK(a.insert(std::move(t)));
                             MC_CHECK(t.st == Tok::gone);
                             ma.insert(next++);
                         }});
        }
        if (not ma.empty()) {
            r.push_back({"insert(*begin)", [this] { MC_CHECK(not a.insert(*a.begin())); }});
            for (size_t i{}; i < ma.size(); ++i) {
                r.push_back({"erase(element " + std::to_string(i) + " itself)", [this, i] {
                                 auto const &e = *(a.begin() + static_cast<std::ptrdiff_t>(i));
                                 ma.erase(e.get());
                                 MC_EQ(a.erase(e), size_t{1});
                             }});
            }
            r.push_back({"erase(smallest)", [this] {
                             MC_EQ(a.erase(Tok{*ma.begin()}), size_t{1});
                             ma.erase(ma.begin());
                         }});
            r.push_back({"pop_back", [this] {
                             auto t = a.pop_back();
                             MC_EQ(ma.erase(t.get()), size_t{1});
                             t.set(98);
                         }});
        }
        std::set<int> all = ma;
        all.insert(mb.begin(), mb.end());
        if (all.size() <= 3) {
            r.push_back({"merge(B)", [this, all] { a.merge(b); ma = all; }});
        }
        r.push_back({"clear", [this] { a.clear(); ma.clear(); }});
        pair_ops(r, a, b, ma, mb);
        return r;
    }
};
MC_SECTION("set") { histories<SetSys>(mc::thorough ? 5 : 4, 4); }
#endif
#if MC_IN_PART(3)
struct MapSys {
    using C = stdx::cx_map<Tok, Tok, 3>;
    C a{}, b{};
    std::map<int, int> ma{}, mb{};
    int next{1};
    explicit MapSys(int variant) {
        for (int i{}; i < variant; ++i) {
            a.put(Tok{next}, Tok{next + 1000});
            ma[next] = next + 1000;
            ++next;
        }
    }
    static void same(C &c, std::map<int, int> const &m) {
        MC_EQ(c.size(), m.size());
        std::map<int, int> seen;
        for (auto const &[k, v] : c) { seen[k.get()] = v.get(); }
        MC_CHECK(seen == m);
        for (auto [k, v] : m) {
            MC_CHECK(c.contains(Tok{k}));
            MC_EQ(c.get(Tok{k}).get(), v);
        }
    }
    void check() {
        same(a, ma);
        same(b, mb);
    }
    auto ops() -> std::vector<Op> {
        std::vector<Op> r;
        if (ma.size() < 3) {
            r.push_back({"put(new)", [this] {
                             Tok k{next}, v{next + 1000};
                             MC_CHECK(a.put(k, v));
                             MC_EQ(k.get(), next);
                             MC_EQ(v.get(), next + 1000);
                             ma[next] = next + 1000;
                             ++next;
                             k.set(99);
                             v.set(99);
                         }});
        }
        if (not ma.empty()) {
            r.push_back({"insert_or_assign(last key)", [this] {
                             auto const k = ma.rbegin()->first;
                             Tok v{next + 2000};
                             MC_CHECK(not a.insert_or_assign(Tok{k}, v));
                             MC_EQ(v.get(), next + 2000);
                             ma[k] = next + 2000;
                             ++next;
                         }});
            r.push_back({"change get(first key)", [this] {
                             a.get(Tok{ma.begin()->first}).set(next + 3000);
                             ma.begin()->second = next + 3000;
                             ++next;
                         }});
            for (size_t i{}; i < ma.size(); ++i) {
                r.push_back({"erase(key of element " + std::to_string(i) + " itself)", [this, i] {
                                 auto const &e = *(a.begin() + static_cast<std::ptrdiff_t>(i));
                                 ma.erase(e.key.get());
                                 MC_EQ(a.erase(e.key), size_t{1});
                             }});
            }
            r.push_back({"pop_back", [this] {
                             auto t = a.pop_back();
                             auto it = ma.find(t.key.get());
                             MC_CHECK(it != ma.end() and it->second == t.value.get());
                             ma.erase(it);
                             t.key.set(98);
                             t.value.set(98);
                         }});
        }
        r.push_back({"clear", [this] { a.clear(); ma.clear(); }});
        pair_ops(r, a, b, ma, mb);
        return r;
    }
};
MC_SECTION("map") { histories<MapSys>(mc::thorough ? 5 : 4, 4); }
#endif
#if MC_IN_PART(4)
constexpr int spent = -7; // the model of an optional whose value was moved out: may only be given a new value
struct OptSys {
    using C = stdx::optional<Tok>;
    C a{}, b{};
    int ma{}, mb{}; // 0: no value
    int next{1};
    explicit OptSys(int variant) {
        if (variant == 1) {
            a = Tok{next};
            ma = next++;
        }
    }
    static void same(C &c, int m) {
        if (m == spent) { return; }
        MC_EQ(c.has_value(), m != 0);
        MC_EQ(static_cast<bool>(c), m != 0);
        if (m != 0) {
            MC_EQ((*c).get(), m);
            MC_EQ(c->get(), m);
            MC_EQ(std::as_const(c).value().get(), m);
        }
    }
    void check() {
        same(a, ma);
        same(b, mb);
        if (ma != spent and mb != spent) { MC_EQ(a == b, ma == mb); }
    }
    auto ops() -> std::vector<Op> {
        std::vector<Op> r;
        r.push_back({"A = lvalue", [this] {
                         Tok t{next};
                         a = t;
                         MC_EQ(t.get(), next);
                         ma = next++;
                         t.set(99);
                     }});
        r.push_back({"A = rvalue", [this] {
                         Tok t{next};
                         a = std::move(t);
                         MC_CHECK(t.st == Tok::gone);
                         ma = next++;
                     }});
        r.push_back({"A.emplace(int)", [this] {
                         auto &x = a.emplace(next);
                         MC_CHECK(&x == &*a);
                         ma = next++;
                     }});
        r.push_back({"A.emplace(rvalue)", [this] {
                         Tok t{next};
                         a.emplace(std::move(t));
                         MC_CHECK(t.st == Tok::gone);
                         ma = next++;
                     }});
        r.push_back({"A.reset()", [this] { a.reset(); ma = 0; }});
        r.push_back({"A = nullopt", [this] { a = std::nullopt; ma = 0; }});
        r.push_back({"A = optional{lvalue}", [this] {
                         Tok t{next};
                         a = C{t};
                         MC_EQ(t.get(), next);
                         ma = next++;
                     }});
        r.push_back({"A = optional{rvalue}", [this] {
                         Tok t{next};
                         a = C{std::move(t)};
                         MC_CHECK(t.st == Tok::gone);
                         ma = next++;
                     }});
        r.push_back({"A = optional{in_place, int}", [this] { a = C{std::in_place, next}; ma = next++; }});
        if (ma != spent) {
            r.push_back({"B = A", [this] { b = a; mb = ma; }});
            r.push_back({"A = A", [this] {
                             auto &same = a;
                             a = same;
                         }});
            r.push_back({"B = move(A)", [this] {
                             b = std::move(a);
                             mb = ma;
                             ma = ma == 0 ? 0 : spent;
                         }});
            r.push_back({"A.value_or", [this] {
                             Tok d{next};
                             auto const v = a.value_or(d);
                             MC_EQ(v.get(), ma == 0 ? next : ma);
                             MC_EQ(d.get(), next);
                         }});
            r.push_back({"A.value_or(rvalue)", [this] {
                             Tok d{next};
                             auto const v = std::as_const(a).value_or(std::move(d));
                             MC_EQ(v.get(), ma == 0 ? next : ma);
                             MC_EQ(d.st == Tok::gone, ma == 0); // left alone when it is not needed
                         }});
            r.push_back({"move(A).value_or", [this] {
                             Tok d{next};
                             auto const v = std::move(a).value_or(std::move(d));
                             MC_EQ(v.get(), ma == 0 ? next : ma);
                             MC_EQ(d.st == Tok::gone, ma == 0);
                             ma = ma == 0 ? 0 : spent;
                         }});
            r.push_back({"A.transform", [this] {
                             auto o = a.transform([](Tok &t) { return Tok{t.get() + 500}; });
                             same(o, ma == 0 ? 0 : ma + 500);
                         }});
            r.push_back({"const A.transform", [this] {
                             auto o = std::as_const(a).transform([](Tok const &t) { return Tok{t.get() + 500}; });
                             same(o, ma == 0 ? 0 : ma + 500);
                         }});
            r.push_back({"A.transform(by value)", [this] {
                             auto o = a.transform([](Tok t) {
                                 t.set(t.get() + 500);
                                 return t;
                             });
                             same(o, ma == 0 ? 0 : ma + 500);
                         }});
            r.push_back({"move(A).transform(by value)", [this] {
                             auto o = std::move(a).transform([](Tok t) { return t; });
                             same(o, ma);
                             MC_CHECK(ma == 0 or a->st == Tok::gone);
                             ma = ma == 0 ? 0 : spent;
                         }});
            r.push_back({"A.and_then", [this] {
                             auto o = a.and_then([](Tok &t) { return C{Tok{t.get() + 600}}; });
                             same(o, ma == 0 ? 0 : ma + 600);
                         }});
            r.push_back({"move(A).and_then(by value)", [this] {
                             auto o = std::move(a).and_then([](Tok t) { return C{std::move(t)}; });
                             same(o, ma);
                             MC_CHECK(ma == 0 or a->st == Tok::gone);
                             ma = ma == 0 ? 0 : spent;
                         }});
            r.push_back({"A | f", [this] {
                             auto o = a | [](Tok const &t) { return C{t}; };
                             same(o, ma);
                         }});
            r.push_back({"A.or_else", [this] {
                             auto o = a.or_else([this] { return C{Tok{next}}; });
                             same(o, ma == 0 ? next : ma);
                         }});
            r.push_back({"move(A).or_else", [this] {
                             auto o = std::move(a).or_else([this] { return C{Tok{next}}; });
                             same(o, ma == 0 ? next : ma);
                             ma = ma == 0 ? 0 : spent;
                         }});
            if (ma != 0) {
                r.push_back({"move(*A)", [this] {
                                 Tok const t{*std::move(a)};
                                 MC_EQ(t.get(), ma);
                                 MC_CHECK(a->st == Tok::gone);
                                 ma = spent;
                             }});
                r.push_back({"move(A).value()", [this] {
                                 Tok const t{std::move(a).value()};
                                 MC_EQ(t.get(), ma);
                                 MC_CHECK(a->st == Tok::gone);
                                 ma = spent;
                             }});
                r.push_back({"change *A", [this] {
                                 (*a).set(next);
                                 ma = next++;
                             }});
            }
        }
        r.push_back({"swap", [this] {
                         std::swap(a, b);
                         std::swap(ma, mb);
                     }});
        return r;
    }
};
MC_SECTION("optional") { histories<OptSys>(mc::thorough ? 4 : 3, 2); }
// several optionals at once
MC_SECTION("optional_transform_n") {
    mc::all_choices([&](mc::Choices &c) {
        alive.clear();
        {
            using C = stdx::optional<Tok>;
            int const x = c.next(2), y = c.next(2), how = c.next(3);
            mc::Scope scp{[&] { return "x=" + std::to_string(x) + " y=" + std::to_string(y) + " how=" + std::to_string(how); }};
            C a = x ? C{Tok{10}} : C{}, b = y ? C{Tok{20}} : C{};
            auto const ref = [](Tok const &p, Tok const &q) { return Tok{p.get() + q.get()}; };
            auto const val = [](Tok p, Tok q) { return Tok{p.get() + q.get()}; };
            C o = how == 0 ? stdx::transform(ref, a, b) : how == 1 ? stdx::transform(val, a, b) : stdx::transform(val, std::move(a), std::move(b));
            OptSys::same(o, x and y ? 30 : 0);
            if (how != 2) {
                OptSys::same(a, x ? 10 : 0);
                OptSys::same(b, y ? 20 : 0);
            } else if (x and y) {
                MC_CHECK(a->st == Tok::gone and b->st == Tok::gone);
            }
        }
        MC_EQ(alive.size(), size_t{});
        mc::step();
        mc::trace();
    });
}
#endif
} // namespace
