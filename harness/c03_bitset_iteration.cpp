#define BS_ITER
#include "bitset_if.hpp"
namespace {
void close_it(IBS const &p, bool narrow) {
    auto const n = p.cap();
    BSys s;
    add_inits(s, p, n < 8 ? (1u << (n + 3)) : 1100);
    add_all(s);
    for (std::size_t i = 0; i < n; ++i) {
        s.add("flip(" + std::to_string(i) + ")", [=](BState &b) {
            b.v->one(Op::Flip, i);
            b.r.b[i] = !b.r.b[i];
        });
    }
    s.add("~", [](BState &b) {
        b.v = b.v->complement();
        for (auto &x : b.r.b) {
            x = !x;
        }
    });
    for (std::size_t k : {std::size_t{1}, n ? n - 1 : 0, std::size_t{8}, std::size_t{9}}) {
        for (bool left : {true, false}) {
            s.add((left ? "<<=" : ">>=") + std::to_string(k), [=](BState &b) {
                b.v->shift_assign(left, k);
                b.r = ref_shift(b.r, left, k);
            });
        }
    }
    s.obs = [](BState const &b) { observe_iter(*b.v, b.r); };
    s.keyf = std_key;
    mc::Scope sc{[&] { return p.name(); }};
    // wide storage leaves many unused bits, whose contents multiply the states: bound the history length there
    mc::closure(s, {.max_depth = narrow ? ~std::size_t{} : std::size_t{3}});
}
void wide(IBS const &p) {
    mc::Scope sc{[&] { return p.name(); }};
    for (auto const &r : structured(p.cap(), p.cap() <= (mc::thorough ? 200 : 66))) {
        for (int how = 0; how < 4; ++how) {
            mc::Scope s2{[&] { return r.str() + " (form " + std::to_string(how) + ")"; }};
            auto v = scarred(p, r, how);
            observe_iter(*v, r);
            mc::step(7);
            mc::trace();
        }
        mc::state(mc::hash_str(r.str()));
    }
    for (auto x : mc::dense<std::uint64_t>()) {
        mc::Scope s2{[&] { return "bitset{" + std::to_string(x) + "}"; }};
        auto v = p.from_u64(x);
        observe_iter(*v, ref_of(x, p.cap()));
        mc::step(7);
        mc::trace();
    }
}
void huge(IBS const &p) {
    mc::Scope sc{[&] { return p.name(); }};
    auto const st = edge_states(p.cap());
    for (std::size_t i = 0; i < st.size(); ++i) {
        for (int how = 0; how < 4; how += 3) {
            mc::Scope s2{[&] { return "edge state " + std::to_string(i) + " (form " + std::to_string(how) + ")"; }};
            observe_iter(*scarred(p, st[i], how), st[i]);
            mc::step(7);
            mc::trace();
        }
        mc::state(mc::hash_of(p.cap(), i));
    }
}
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
template <std::size_t N, typename E> using C = mc::cfg<N, E>;
enum struct E9 : std::uint8_t { a, b, c, d, e, f, g, h, i, max };
enum E5 : int { q0, q1, q2, q3, q4, q5 };
using closed = mc::list<C<9, u8>, C<10, u8>, mc::cfg<E9::max, u8>, C<8, u8>, C<7, u8>, C<5, u8>, C<5, u16>, C<5, u32>,
                        C<5, u64>, C<3, u8>, C<1, u8>, C<0, u8>, C<2, u8>, mc::cfg<q5, u32>, C<9, u16>, C<6, u8>,
                        C<4, u8>
#if MC_TIER_THOROUGH
                        , C<12, u8>, C<15, u8>, C<12, u16>
#endif
                        >;
using wides = mc::list<C<128, u64>, C<129, u64>, C<127, u64>, C<65, u8>, C<64, u16>, C<65, u64>, C<63, u64>, C<64, u64>,
                       C<65, u32>, C<33, u16>, C<32, u16>, C<17, u8>, C<25, u8>, C<24, u8>, C<16, u8>, C<33, u32>,
                       C<31, u32>, C<96, u32>, C<15, u16>, C<12, u8>, C<16, u16>, C<32, u32>>;
int init = [] {
    mc::part_each(closed{}, []<typename X> {
        auto p = std::make_shared<BS<X::value, typename X::type>>();
        mc::Reg{"closure_" + p->name(), [=] { close_it(*p, sizeof(typename X::type) == 1); }};
    });
    mc::part_each(wides{}, []<typename X> {
        auto p = std::make_shared<BS<X::value, typename X::type>>();
        mc::Reg{"wide_" + p->name(), [=] { wide(*p); }};
    });
    mc::part_each(mc::list<C<300, u8>, C<300, u64>, C<70001, u16>, C<70001, u64>>{}, []<typename X> {
        auto p = std::make_shared<BS<X::value, typename X::type>>();
        mc::Reg{"huge_" + p->name(), [=] { huge(*p); }};
    });
    return 0;
}();
} // namespace
