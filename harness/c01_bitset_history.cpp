#include "bitset_if.hpp"
namespace {
void close_it(IBS const &p, std::uint64_t ctor_max) {
    BSys s;
    add_inits(s, p, ctor_max);
    add_one(s, p.cap());
    add_ranges(s, p.cap(), true);
    add_all(s);
    s.obs = [](BState const &b) { observe_core(*b.v, b.r); };
    s.keyf = std_key;
    mc::Scope sc{[&] { return p.name(); }};
    mc::closure(s);
}
// large capacities: every structured state, reached three ways, times every single operation
void wide(IBS const &p) {
    BSys s;
    auto const n = p.cap();
    auto const st = structured(n, false);
    for (auto const &r : st) {
        for (int how = 0; how < 4; how += 3) {
            s.init.push_back({(how ? "flipped " : "built ") + r.str(), BState{scarred(p, r, how), r}});
        }
    }
    add_one(s, n);
    add_all(s);
    s.obs = [](BState const &b) {
        for (std::size_t i = 0; i < b.r.n(); ++i) {
            if (b.v->get(i) != bool(b.r.b[i])) {
                mc::fail("index " + std::to_string(i) + " wrong, expected " + b.r.str());
            }
        }
        MC_EQ(b.v->count(), b.r.count());
        MC_EQ(b.v->q_all(), b.r.count() == b.r.n());
        MC_EQ(b.v->q_any(), b.r.count() != 0);
        MC_EQ(b.v->q_none(), b.r.count() == 0);
        MC_EQ(b.v->empty(), b.r.count() == 0);
        MC_EQ(b.v->size(), b.r.count());
    };
    s.keyf = std_key;
    mc::Scope sc{[&] { return p.name(); }};
    mc::closure(s, {.max_states = 3'000'000, .max_depth = 1});
    // all ranges from a handful of states
    BSys q;
    for (std::size_t i : {std::size_t{0}, std::size_t{1}, st.size() - 1, st.size() - 2}) {
        for (int how = 0; how < 2; ++how) {
            q.init.push_back({(how ? "scarred " : "built ") + st[i].str(), BState{scarred(p, st[i], how), st[i]}});
        }
    }
    add_ranges(q, n, mc::thorough);
    q.obs = s.obs;
    q.keyf = std_key;
    mc::closure(q, {.max_states = 3'000'000, .max_depth = 1});
    for (auto const &r : st) { // equality
        mc::Scope s2{[&] { return "equality of " + r.str(); }};
        observe_core(*scarred(p, r, 1), r);
        observe_core(*scarred(p, r, 2), r);
        mc::trace(2);
    }
}
// very large capacities: every operation at every pair of edges
void huge(IBS const &p) {
    auto const n = p.cap();
    mc::Scope sc{[&] { return p.name(); }};
    auto const es = edges(n);
    auto const check = [&](IBS const &v, Ref const &r) {
        for (std::size_t i = 0; i < n; ++i) {
            if (v.get(i) != bool(r.b[i])) {
                mc::fail("index " + std::to_string(i) + " wrong");
            }
        }
        auto const c = r.count();
        MC_EQ(v.count(), c);
        MC_EQ(v.size(), c);
        MC_EQ(v.q_all(), c == n);
        MC_EQ(v.q_any(), c != 0);
        MC_EQ(v.q_none(), c == 0);
        MC_EQ(v.empty(), c == 0);
        mc::step();
    };
    for (int full = 0; full < 2; ++full) {
        Ref base{n};
        base.all(full != 0);
        auto const from = full ? p.from_all() : p.fresh();
        check(*from, base);
        for (auto l : es) {
            for (int o = 0; o < 6; ++o) {
                mc::Scope s2{[&] { return std::string{full ? "full" : "empty"} + ", " + op_names[o] + " at " + std::to_string(l); }};
                auto v = from->clone();
                auto r = base;
                MC_CHECK(v->one(static_cast<Op>(o), l));
                r.b[l] = o <= 1 ? 1 : o <= 4 ? 0 : !r.b[l];
                check(*v, r);
                MC_EQ(v->eq(*from), r == base);
                MC_EQ(v->ne(*from), r != base);
                mc::state(mc::hash_of(n, full, l, o));
            }
            for (auto m : es) {
                for (int o = 0; o < 5 and l <= m; ++o) {
                    mc::Scope s2{[&] { return std::string{full ? "full" : "empty"} + ", " + rop_names[o] + " from " + std::to_string(l) + " to " + std::to_string(m); }};
                    auto r = base;
                    r.range(l, m, o <= 1);
                    auto v = from->clone();
                    MC_CHECK(v->range_msb(static_cast<ROp>(o), l, m));
                    check(*v, r);
                    auto w = from->clone();
                    MC_CHECK(w->range_len(static_cast<ROp>(o), l, m - l + 1));
                    MC_CHECK(w->eq(*v));
                    mc::trace();
                }
            }
        }
        for (int o = 0; o < 4; ++o) {
            mc::Scope s2{[&] { return std::string{aop_names[o]}; }};
            auto v = from->clone();
            auto r = base;
            MC_CHECK(v->all_op(static_cast<AOp>(o)));
            r.all(o == 0 or (o == 3 and not full));
            check(*v, r);
        }
    }
}
enum struct E9 : std::uint8_t { a, b, c, d, e, f, g, h, i, max };

// every integer type is accepted as an index
template <typename I> void index_type(char const *nm) {
    stdx::bitset<11, std::uint8_t> b;
    for (int i = 0; i < 11; ++i) {
        for (int j = 0; j < 11; ++j) {
            mc::Scope sc{[&] { return std::string{nm} + " index " + std::to_string(i) + "," + std::to_string(j); }};
            b.reset();
            b.set(static_cast<I>(i));
            b.flip(static_cast<I>(j));
            mc::step(2);
            for (int k = 0; k < 11; ++k) {
                MC_EQ(b[static_cast<I>(k)], (k == i) != (k == j));
            }
            b.set();
            b.reset(static_cast<I>(i));
            b.set(static_cast<I>(j), false);
            mc::step(2);
            MC_EQ(b.count(), i == j ? 10u : 9u);
            mc::state(mc::hash_of(i, j, sizeof(I)));
            mc::trace();
        }
    }
}
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
template <std::size_t N, typename E> using C = mc::cfg<N, E>;
using closed = mc::list<C<10, u8>, C<9, u8>, mc::cfg<E9::max, u8>, C<8, u8>, C<9, u16>, C<9, u32>, C<8, u64>, C<7, u8>,
                        C<6, u8>, C<5, u8>, C<4, u8>, C<3, u8>, C<2, u8>, C<1, u8>, C<0, u8>, C<3, u16>, C<5, u32>,
                        C<4, u64>
#if MC_TIER_THOROUGH
                        , C<11, u8>, C<12, u8>, C<10, u16>, C<12, u16>, C<11, u64>
#endif
                        >;
using wides = mc::list<C<129, u64>, C<128, u64>, C<127, u64>, C<65, u8>, C<65, u16>, C<129, u32>, C<65, u64>,
                       C<64, u64>, C<63, u64>, C<65, u32>, C<64, u32>, C<63, u32>, C<33, u32>, C<32, u32>, C<31, u32>,
                       C<33, u16>, C<32, u16>, C<31, u16>, C<17, u16>, C<16, u16>, C<15, u16>, C<16, u8>, C<15, u8>,
                       C<17, u8>, C<24, u8>, C<25, u8>, C<31, u64>, C<48, u16>, C<64, u8>, C<96, u32>
#if MC_TIER_THOROUGH
                       , C<100, u8>, C<100, u16>, C<100, u32>, C<100, u64>, C<23, u8>, C<33, u8>, C<49, u16>,
                       C<97, u32>, C<191, u64>, C<192, u64>, C<193, u64>
#endif
                       >;
int init = [] {
    mc::part_each(closed{}, []<typename X> {
        auto p = std::make_shared<BS<X::value, typename X::type>>();
        std::uint64_t const max = p->cap() < 8 ? (1u << (p->cap() + 2)) : 1024;
        mc::Reg{"closure_" + p->name(), [=] { close_it(*p, max); }};
    });
    mc::part_each(wides{}, []<typename X> {
        auto p = std::make_shared<BS<X::value, typename X::type>>();
        mc::Reg{"wide_" + p->name(), [=] { wide(*p); }};
    });
    mc::part_each(mc::list<C<300, u8>, C<300, u64>, C<70001, u16>, C<70001, u64>>{}, []<typename X> {
        auto p = std::make_shared<BS<X::value, typename X::type>>();
        mc::Reg{"huge_" + p->name(), [=] { huge(*p); }};
    });
    mc::part_each(mc::list<int>{}, []<typename X> {
        mc::Reg{"index_types", [] {
                    index_type<char>("char");
                    index_type<signed char>("signed char");
                    index_type<unsigned char>("unsigned char");
                    index_type<short>("short");
                    index_type<unsigned short>("unsigned short");
                    index_type<int>("int");
                    index_type<unsigned>("unsigned");
                    index_type<long>("long");
                    index_type<unsigned long>("unsigned long");
                }};
    });
    return 0;
}();
} // namespace
