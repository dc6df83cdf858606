// Type-erased access to every public operation of stdx::bitset<N, Elem>, and a plain reference set.
#pragma once
#include <stdx/bitset.hpp>

#include <mc.hpp>

struct Ref { // the set of indices, as a plain list of booleans
    std::vector<char> b;
    explicit Ref(std::size_t n = 0) : b(n, 0) {}
    auto n() const { return b.size(); }
    auto count() const {
        std::size_t c = 0;
        for (auto x : b) {
            c += x ? 1 : 0;
        }
        return c;
    }
    void range(std::size_t l, std::size_t m, bool v) {
        for (auto i = l; i <= m and i < b.size(); ++i) {
            b[i] = v;
        }
    }
    void all(bool v) { range(0, b.size() - 1, v); }
    auto indices(bool v) const {
        std::vector<std::size_t> r;
        for (std::size_t i = 0; i < b.size(); ++i) {
            if (bool(b[i]) == v) {
                r.push_back(i);
            }
        }
        return r;
    }
    auto str() const {
        std::string s;
        for (auto i = b.size(); i-- > 0;) {
            s += b[i] ? '1' : '0';
        }
        return s;
    }
    friend auto operator==(Ref const &, Ref const &) -> bool = default;
};

enum class Op { Set, SetT, SetF, Reset, Clear, Flip };
enum class ROp { Set, SetT, SetF, Reset, Clear };
enum class AOp { Set, Reset, Clear, Flip };
enum class BOp { Or, And, Xor, Minus };
inline char const *op_names[] = {"set(%)", "set(%,true)", "set(%,false)", "reset(%)", "clear(%)", "flip(%)"};
inline char const *rop_names[] = {"set", "set_true", "set_false", "reset", "clear"};
inline char const *aop_names[] = {"set()", "reset()", "clear()", "flip()"};
inline char const *bop_names[] = {"|", "&", "^", "-"};

struct IBS {
    virtual ~IBS() = default;
    virtual auto clone() const -> std::unique_ptr<IBS> = 0;
    virtual auto fresh() const -> std::unique_ptr<IBS> = 0;
    virtual auto from_u64(std::uint64_t) const -> std::unique_ptr<IBS> = 0;
    virtual auto from_all() const -> std::unique_ptr<IBS> = 0;
    virtual auto name() const -> std::string = 0;
    virtual auto cap() const -> std::size_t = 0;
    virtual void key(std::string &) const = 0;
    // mutators: did the call return the object itself?
    virtual auto one(Op, std::size_t) -> bool = 0;
    virtual auto range_msb(ROp, std::size_t l, std::size_t m) -> bool = 0;
    virtual auto range_len(ROp, std::size_t l, std::size_t n) -> bool = 0;
    virtual auto all_op(AOp) -> bool = 0;
    virtual auto assign_op(BOp, IBS const &) -> bool = 0;
    virtual auto shift_assign(bool left, std::size_t) -> bool = 0;
    // values
    virtual auto binary(BOp, IBS const &) const -> std::unique_ptr<IBS> = 0;
    virtual auto shift(bool left, std::size_t) const -> std::unique_ptr<IBS> = 0;
    virtual auto complement() const -> std::unique_ptr<IBS> = 0;
    // queries
    virtual auto get(std::size_t) const -> bool = 0;
    virtual auto count() const -> std::size_t = 0;
    virtual auto size() const -> std::size_t = 0;
    virtual auto empty() const -> bool = 0;
    virtual auto q_all() const -> bool = 0;
    virtual auto q_any() const -> bool = 0;
    virtual auto q_none() const -> bool = 0;
    virtual auto eq(IBS const &) const -> bool = 0;
    virtual auto ne(IBS const &) const -> bool = 0;
#ifdef BS_ITER
    virtual auto lowest_unset() const -> std::size_t = 0;
    virtual auto visit_set() const -> std::vector<std::size_t> = 0;
    virtual auto visit_default() const -> std::vector<std::size_t> = 0;
    virtual auto visit_unset() const -> std::vector<std::size_t> = 0;
    virtual auto visit_bit() const -> std::vector<std::pair<std::size_t, bool>> = 0;
    virtual auto visit_mutable() const -> std::size_t = 0; // function object handed back by value with its state
    virtual auto reduce() const -> std::vector<std::size_t> = 0;
    virtual auto reduce_num() const -> std::uint64_t = 0;
#endif
};

// Everything that is constant-evaluable is also executed through a non-constant object here.
template <auto Size, typename E> struct BS final : IBS {
    using T = stdx::bitset<Size, E>;
    constexpr static std::size_t N = static_cast<std::size_t>(Size);
    using IterArg = std::conditional_t<std::is_enum_v<decltype(Size)>, decltype(Size), std::size_t>;
    T v{};
    BS() = default;
    explicit BS(T const &t) : v{t} {}
    static auto of(IBS const &o) -> T const & { return static_cast<BS const &>(o).v; }
    static auto ix(std::size_t i) { return static_cast<IterArg>(i); }

    auto clone() const -> std::unique_ptr<IBS> override { return std::make_unique<BS>(v); }
    auto fresh() const -> std::unique_ptr<IBS> override { return std::make_unique<BS>(); }
    auto from_u64(std::uint64_t x) const -> std::unique_ptr<IBS> override { return std::make_unique<BS>(T{x}); }
    auto from_all() const -> std::unique_ptr<IBS> override { return std::make_unique<BS>(T{stdx::all_bits}); }
    auto name() const -> std::string override {
        return "bitset<" + std::to_string(N) + ",u" + std::to_string(8 * sizeof(E)) + ">" +
               (std::is_enum_v<decltype(Size)> ? "(enum)" : "");
    }
    auto cap() const -> std::size_t override {
        MC_EQ(static_cast<std::size_t>(v.capacity()), N);
        return N;
    }
    void key(std::string &k) const override { mc::append_bytes(k, v); }
    auto one(Op o, std::size_t p) -> bool override {
        auto const i = ix(p);
        switch (o) {
        case Op::Set: return &v.set(i) == &v;
        case Op::SetT: return &v.set(i, true) == &v;
        case Op::SetF: return &v.set(i, false) == &v;
        case Op::Reset: return &v.reset(i) == &v;
        case Op::Clear: return &v.clear(i) == &v;
        case Op::Flip: return &v.flip(i) == &v;
        }
        return false;
    }
    auto range_msb(ROp o, std::size_t l, std::size_t m) -> bool override {
        auto const a = static_cast<stdx::lsb_t>(l);
        auto const b = static_cast<stdx::msb_t>(m);
        switch (o) {
        case ROp::Set: return &v.set(a, b) == &v;
        case ROp::SetT: return &v.set(a, b, true) == &v;
        case ROp::SetF: return &v.set(a, b, false) == &v;
        case ROp::Reset: return &v.reset(a, b) == &v;
        case ROp::Clear: return &v.clear(a, b) == &v;
        }
        return false;
    }
    auto range_len(ROp o, std::size_t l, std::size_t n) -> bool override {
        auto const a = static_cast<stdx::lsb_t>(l);
        auto const b = static_cast<stdx::length_t>(n);
        switch (o) {
        case ROp::Set: return &v.set(a, b) == &v;
        case ROp::SetT: return &v.set(a, b, true) == &v;
        case ROp::SetF: return &v.set(a, b, false) == &v;
        case ROp::Reset: return &v.reset(a, b) == &v;
        case ROp::Clear: return &v.clear(a, b) == &v;
        }
        return false;
    }
    auto all_op(AOp o) -> bool override {
        switch (o) {
        case AOp::Set: return &v.set() == &v;
        case AOp::Reset: return &v.reset() == &v;
        case AOp::Clear: return &v.clear() == &v;
        case AOp::Flip: return &v.flip() == &v;
        }
        return false;
    }
    auto assign_op(BOp o, IBS const &r) -> bool override {
        switch (o) {
        case BOp::Or: return &(v |= of(r)) == &v;
        case BOp::And: return &(v &= of(r)) == &v;
        case BOp::Xor: return &(v ^= of(r)) == &v;
        case BOp::Minus: v = v - of(r); return true;
        }
        return false;
    }
    auto shift_assign(bool left, std::size_t k) -> bool override {
        return left ? &(v <<= k) == &v : &(v >>= k) == &v;
    }
    auto binary(BOp o, IBS const &r) const -> std::unique_ptr<IBS> override {
        switch (o) {
        case BOp::Or: return std::make_unique<BS>(v | of(r));
        case BOp::And: return std::make_unique<BS>(v & of(r));
        case BOp::Xor: return std::make_unique<BS>(v ^ of(r));
        case BOp::Minus: return std::make_unique<BS>(v - of(r));
        }
        return {};
    }
    auto shift(bool left, std::size_t k) const -> std::unique_ptr<IBS> override {
        return left ? std::make_unique<BS>(v << k) : std::make_unique<BS>(v >> k);
    }
    auto complement() const -> std::unique_ptr<IBS> override { return std::make_unique<BS>(~v); }
    auto get(std::size_t i) const -> bool override { return v[ix(i)]; }
    auto count() const -> std::size_t override { return v.count(); }
    auto size() const -> std::size_t override { return v.size(); }
    auto empty() const -> bool override { return v.empty(); }
    auto q_all() const -> bool override { return v.all(); }
    auto q_any() const -> bool override { return v.any(); }
    auto q_none() const -> bool override { return v.none(); }
    auto eq(IBS const &r) const -> bool override { return v == of(r); }
    auto ne(IBS const &r) const -> bool override { return v != of(r); }
#ifdef BS_ITER
    auto lowest_unset() const -> std::size_t override {
        auto const r = v.lowest_unset();
        static_assert(std::is_same_v<decltype(r), IterArg const>);
        return static_cast<std::size_t>(r);
    }
    auto visit_set() const -> std::vector<std::size_t> override {
        std::vector<std::size_t> r;
        stdx::for_each<stdx::set_bit>([&](IterArg i) { r.push_back(static_cast<std::size_t>(i)); }, v);
        return r;
    }
    auto visit_default() const -> std::vector<std::size_t> override {
        std::vector<std::size_t> r;
        stdx::for_each([&](auto i) {
            static_assert(std::is_same_v<decltype(i), IterArg>);
            r.push_back(static_cast<std::size_t>(i));
        }, v);
        return r;
    }
    auto visit_unset() const -> std::vector<std::size_t> override {
        std::vector<std::size_t> r;
        stdx::for_each<stdx::unset_bit>([&](auto i) { r.push_back(static_cast<std::size_t>(i)); }, v);
        return r;
    }
    auto visit_bit() const -> std::vector<std::pair<std::size_t, bool>> override {
        std::vector<std::pair<std::size_t, bool>> r;
        stdx::for_each<stdx::bit>([&](auto i, bool b) { r.push_back({static_cast<std::size_t>(i), b}); }, v);
        return r;
    }
    struct Counter { // never copied
        std::size_t n = 0;
        std::size_t sum = 0;
        explicit Counter() = default;
        Counter(Counter &&) = default;
        auto operator()(IterArg i) -> void {
            ++n;
            sum = sum * 31 + static_cast<std::size_t>(i) + 1;
        }
    };
    auto visit_mutable() const -> std::size_t override {
        auto const r = stdx::for_each(Counter{}, v); // state returned by value
        Counter c{};
        auto &rr = stdx::for_each(c, v); // lvalue: same object, accumulated in place
        MC_CHECK(&rr == &c);
        MC_EQ(r.n, c.n);
        MC_EQ(r.sum, c.sum);
        return r.sum;
    }
    auto reduce() const -> std::vector<std::size_t> override {
        struct Acc { // an accumulator that can only be moved
            std::vector<std::size_t> v{};
            explicit Acc() = default;
            Acc(Acc &&) = default;
            auto operator=(Acc &&) -> Acc & = default;
        };
        return stdx::transform_reduce(
                   [](auto i) {
                       static_assert(std::is_same_v<decltype(i), IterArg>);
                       return static_cast<std::size_t>(i);
                   },
                   [](Acc acc, std::size_t i) {
                       acc.v.push_back(i);
                       return acc;
                   },
                   Acc{}, v)
            .v;
    }
    auto reduce_num() const -> std::uint64_t override {
        return stdx::transform_reduce([](auto i) { return static_cast<std::uint64_t>(i) + 1; },
                                      [](std::uint64_t a, std::uint64_t b) { return a * 31 + b; }, std::uint64_t{7}, v);
    }
#endif
};

struct BState {
    std::shared_ptr<IBS> v;
    Ref r;
    BState() = default;
    BState(std::shared_ptr<IBS> p, Ref rr) : v{std::move(p)}, r{std::move(rr)} {}
    BState(BState const &o) : v{o.v->clone()}, r{o.r} {}
    BState(BState &&) = default;
    auto operator=(BState const &) -> BState & = delete;
};

inline void observe_core(IBS const &v, Ref const &r) {
    MC_EQ(v.cap(), r.n());
    for (std::size_t i = 0; i < r.n(); ++i) {
        if (v.get(i) != bool(r.b[i])) {
            std::string s;
            for (auto k = r.n(); k-- > 0;) {
                s += v.get(k) ? '1' : '0';
            }
            mc::fail("content " + s + ", expected " + r.str());
        }
    }
    auto const c = r.count();
    MC_EQ(v.count(), c);
    MC_EQ(v.size(), c);
    MC_EQ(v.empty(), c == 0);
    MC_EQ(v.q_none(), c == 0);
    MC_EQ(v.q_any(), c != 0);
    MC_EQ(v.q_all(), c == r.n());
    // equality against a canonical bitset with the same indices, and against neighbours
    auto w = v.fresh();
    for (std::size_t i = 0; i < r.n(); ++i) {
        if (r.b[i]) {
            w->one(Op::Set, i);
        }
    }
    MC_CHECK(v.eq(*w) and w->eq(v) and not v.ne(*w));
    for (std::size_t i = 0; i < r.n(); ++i) {
        w->one(r.b[i] ? Op::Reset : Op::Set, i);
        if (v.eq(*w) or not w->ne(v)) {
            mc::fail("equal to a bitset that differs at index " + std::to_string(i));
        }
        w->one(r.b[i] ? Op::Set : Op::Reset, i);
    }
}
#ifdef BS_ITER
inline void observe_iter(IBS const &v, Ref const &r) {
    auto const on = r.indices(true);
    auto const off = r.indices(false);
    MC_EQ(v.visit_set(), on);
    MC_EQ(v.visit_default(), on);
    MC_EQ(v.visit_unset(), off);
    auto const bits = v.visit_bit();
    MC_EQ(bits.size(), r.n());
    for (std::size_t i = 0; i < bits.size(); ++i) {
        MC_EQ(bits[i].first, i);
        MC_EQ(bits[i].second, bool(r.b[i]));
    }
    std::size_t sum = 0;
    std::uint64_t num = 7;
    for (auto i : on) {
        sum = sum * 31 + i + 1;
        num = num * 31 + i + 1;
    }
    MC_EQ(v.visit_mutable(), sum);
    if (r.n() < 1000) {
        MC_EQ(v.reduce(), on);
    }
    MC_EQ(v.reduce_num(), num);
    MC_EQ(v.lowest_unset(), off.empty() ? r.n() : off.front());
}
#endif
inline auto canonical(IBS const &proto, Ref const &r) {
    auto w = proto.fresh();
    for (std::size_t i = 0; i < r.n(); ++i) {
        if (r.b[i]) {
            w->one(Op::Set, i);
        }
    }
    return w;
}
inline auto ref_of(std::uint64_t x, std::size_t n) {
    Ref r{n};
    for (std::size_t i = 0; i < n and i < 64; ++i) {
        r.b[i] = (x >> i) & 1;
    }
    return r;
}
inline auto ref_binary(BOp o, Ref a, Ref const &b) {
    for (std::size_t i = 0; i < a.n(); ++i) {
        bool x = a.b[i], y = b.b[i];
        switch (o) {
        case BOp::Or: x = x or y; break;
        case BOp::And: x = x and y; break;
        case BOp::Xor: x = x != y; break;
        case BOp::Minus: x = x and not y; break;
        }
        a.b[i] = x;
    }
    return a;
}
inline auto ref_shift(Ref const &a, bool left, std::size_t k) {
    Ref r{a.n()};
    for (std::size_t i = 0; i < a.n(); ++i) {
        if (a.b[i]) {
            if (left and k < a.n() and i + k < a.n()) {
                r.b[i + k] = 1;
            }
            if (not left and i >= k) {
                r.b[i - k] = 1;
            }
        }
    }
    return r;
}

using BSys = mc::OpSystem<BState>;
inline void add_one(BSys &s, std::size_t n) {
    for (std::size_t i = 0; i < n; ++i) {
        for (int o = 0; o < 6; ++o) {
            std::string nm = op_names[o];
            nm.replace(nm.find('%'), 1, std::to_string(i));
            s.add(nm, [=](BState &b) {
                MC_CHECK(b.v->one(static_cast<Op>(o), i));
                auto x = b.r.b[i];
                b.r.b[i] = o <= 1 ? 1 : o <= 4 ? 0 : !x;
            });
        }
    }
}
inline void add_ranges(BSys &s, std::size_t n, bool all_forms) {
    for (std::size_t l = 0; l < n; ++l) {
        for (std::size_t m = l; m < n; ++m) {
            for (int o = 0; o < 5; ++o) {
                if (not all_forms and o != 0 and o != 2) {
                    continue;
                }
                auto const nm = std::string{rop_names[o]} + "(lsb " + std::to_string(l);
                s.add(nm + ", msb " + std::to_string(m) + ")", [=](BState &b) {
                    MC_CHECK(b.v->range_msb(static_cast<ROp>(o), l, m));
                    b.r.range(l, m, o <= 1);
                });
                s.add(nm + ", len " + std::to_string(m - l + 1) + ")", [=](BState &b) {
                    MC_CHECK(b.v->range_len(static_cast<ROp>(o), l, m - l + 1));
                    b.r.range(l, m, o <= 1);
                });
            }
        }
        s.add("set(lsb " + std::to_string(l) + ", len 0)",
              [=](BState &b) { MC_CHECK(b.v->range_len(ROp::Set, l, 0)); });
        s.add("reset(lsb " + std::to_string(l) + ", len 0)",
              [=](BState &b) { MC_CHECK(b.v->range_len(ROp::Reset, l, 0)); });
    }
}
inline void add_all(BSys &s) {
    for (int o = 0; o < 4; ++o) {
        s.add(aop_names[o], [=](BState &b) {
            MC_CHECK(b.v->all_op(static_cast<AOp>(o)));
            for (auto &x : b.r.b) {
                x = o == 0 ? 1 : o == 3 ? !x : 0;
            }
        });
    }
}
inline void std_key(BState const &s, std::string &k) {
    s.v->key(k);
    k.append(s.r.b.begin(), s.r.b.end());
}
inline void add_inits(BSys &s, IBS const &p, std::uint64_t max_value) {
    auto const n = p.cap();
    s.init.push_back({"bitset{}", BState{p.fresh(), Ref{n}}});
    Ref full{n};
    full.all(true);
    s.init.push_back({"bitset{all_bits}", BState{p.from_all(), full}});
    for (std::uint64_t x = 0; x <= max_value; ++x) {
        s.init.push_back({"bitset{" + std::to_string(x) + "u}", BState{p.from_u64(x), ref_of(x, n)}});
    }
    s.init.push_back({"bitset{~0u}", BState{p.from_u64(~0ull), ref_of(~0ull, n)}});
}
// structured values of a large capacity
inline auto structured(std::size_t n, bool pairs) {
    std::vector<Ref> v;
    auto add = [&](Ref const &r) { v.push_back(r); };
    Ref e{n};
    add(e);
    Ref f{n};
    f.all(true);
    add(f);
    for (std::size_t i = 0; i < n; ++i) {
        Ref r{n};
        r.b[i] = 1;
        add(r);
        for (auto &x : r.b) {
            x = !x;
        }
        add(r);
        Ref p{n};
        p.range(0, i, true);
        add(p);
    }
    for (std::size_t k : {2u, 3u, 7u, 8u, 9u, 16u, 33u}) {
        Ref r{n};
        for (std::size_t i = 0; i < n; ++i) {
            r.b[i] = (i / k) % 2;
        }
        add(r);
        for (std::size_t i = 0; i < n; ++i) {
            r.b[i] = i % k == 0;
        }
        add(r);
    }
    if (pairs) {
        for (std::size_t i = 0; i < n; ++i) {
            for (std::size_t j = i + 1; j < n; ++j) {
                Ref r{n};
                r.b[i] = r.b[j] = 1;
                add(r);
                Ref q{n};
                q.range(i, j, true);
                add(q);
            }
        }
    }
    return v;
}
// an object with these indices whose history ran through complement / set() / flip(), which may leave
// different internal leftovers than setting bits one by one
inline auto scarred(IBS const &proto, Ref const &r, int how) {
    auto w = proto.fresh();
    if (how == 0) {
        return canonical(proto, r);
    }
    if (how == 1) { // set() then reset the absent ones
        w->all_op(AOp::Set);
        for (std::size_t i = 0; i < r.n(); ++i) {
            if (not r.b[i]) {
                w->one(Op::Reset, i);
            }
        }
    } else { // complement of the complement set
        for (std::size_t i = 0; i < r.n(); ++i) {
            if (not r.b[i]) {
                w->one(Op::Set, i);
            }
        }
        if (how == 2) {
            return w->complement();
        }
        w->all_op(AOp::Flip);
    }
    return w;
}
// positions of a very large capacity at which a narrow counter or a storage boundary would show
inline auto edges(std::size_t n) {
    std::vector<std::size_t> v;
    for (std::size_t i : {0u, 1u, 7u, 8u, 63u, 64u, 65u, 127u, 128u, 254u, 255u, 256u, 257u, 32767u, 32768u, 65535u, 65536u, 65537u}) {
        if (i + 3 < n) {
            v.push_back(i);
        }
    }
    for (std::size_t i = n - 3; i < n; ++i) {
        v.push_back(i);
    }
    return v;
}
// states of a very large capacity: nothing, everything, one edge only, everything but an edge, everything below an edge
inline auto edge_states(std::size_t n) {
    std::vector<Ref> v{Ref{n}, Ref{n}};
    v[1].all(true);
    for (auto i : edges(n)) {
        v.emplace_back(n);
        v.back().b[i] = 1;
        v.push_back(v[1]);
        v.back().b[i] = 0;
        v.emplace_back(n);
        v.back().range(0, i, true);
    }
    return v;
}
template <std::size_t... Ns, typename E> void protos_for(std::vector<std::shared_ptr<IBS>> &v, std::index_sequence<Ns...>, E) {
    (v.push_back(std::make_shared<BS<Ns, E>>()), ...);
}
