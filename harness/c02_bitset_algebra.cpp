#include "bitset_if.hpp"
namespace {
void same(IBS const &v, Ref const &r, char const *what) {
    for (std::size_t i = 0; i < r.n(); ++i) {
        if (v.get(i) != bool(r.b[i])) {
            std::string s;
            for (auto k = r.n(); k-- > 0;) {
                s += v.get(k) ? '1' : '0';
            }
            mc::fail(std::string{what} + ": content " + s + ", expected " + r.str());
        }
    }
    MC_EQ(v.count(), r.count());
    MC_CHECK(v.eq(*canonical(v, r)));
}
auto shifts(IBS const &p) {
    std::vector<std::size_t> k;
    for (std::size_t i = 0; i <= p.cap() + 64 + 2; ++i) {
        k.push_back(i);
    }
    for (auto x : {std::size_t{1000}, std::size_t{1} << 31, std::size_t{1} << 32, (std::size_t{1} << 32) + 1,
                   ~std::size_t{} - 7, ~std::size_t{}}) {
        k.push_back(x);
    }
    return k;
}
// the algebra as a transition system: results feed further operations
void close_it(IBS const &p, bool all_operands, bool narrow) {
    auto const n = p.cap();
    BSys s;
    add_inits(s, p, n < 8 ? (1u << (n + 2)) : 300);
    bool const big = n >= 9;
    if (big) { // every value, in two forms; one operation from each (thorough: closure)
        for (std::uint64_t x = 0; x < (1u << n); ++x) {
            for (int how : {0, 3}) {
                auto const r = ref_of(x, n);
                s.init.push_back({r.str() + "(form " + std::to_string(how) + ")", BState{scarred(p, r, how), r}});
            }
        }
    }
    add_all(s);
    s.add("~", [](BState &b) {
        b.v = b.v->complement();
        for (auto &x : b.r.b) {
            x = !x;
        }
    });
    auto const ks = shifts(p);
    for (auto k : ks) {
        if (k > n + (big ? 17 : 70) and k < 1000) {
            continue;
        }
        for (bool left : {true, false}) {
            auto nm = std::string{left ? "<<" : ">>"};
            s.add(nm + " " + std::to_string(k), [=](BState &b) {
                auto w = b.v->shift(left, k);
                same(*b.v, b.r, "shift changed its operand");
                b.v = std::move(w);
                b.r = ref_shift(b.r, left, k);
            });
            s.add(nm + "= " + std::to_string(k), [=](BState &b) {
                MC_CHECK(b.v->shift_assign(left, k));
                b.r = ref_shift(b.r, left, k);
            });
        }
    }
    std::vector<Ref> operands;
    if (all_operands) {
        for (std::uint64_t x = 0; x < (1u << n); ++x) {
            operands.push_back(ref_of(x, n));
        }
    } else {
        for (std::uint64_t x : {0u, 1u, 2u, 0x55u, 0xf0u, 0x80u, 0x100u, 0x2aau, 0x3feu, 0xfffu}) {
            operands.push_back(ref_of(x, n));
        }
    }
    for (auto const &r : operands) {
        for (int how = 0; how < 4; how += big ? 3 : 1) {
            std::shared_ptr<IBS> w = scarred(p, r, how);
            for (int o = 0; o < 4; ++o) {
                auto const op = static_cast<BOp>(o);
                auto const nm = std::string{bop_names[o]} + " " + r.str() + "(form " + std::to_string(how) + ")";
                s.add("a" + nm, [=](BState &b) {
                    auto res = b.v->binary(op, *w);
                    same(*res, ref_binary(op, b.r, r), "a op b");
                    auto rev = w->binary(op, *b.v);
                    same(*rev, ref_binary(op, r, b.r), "b op a");
                    b.v = std::move(res);
                    b.r = ref_binary(op, b.r, r);
                });
                s.add("assign" + nm, [=](BState &b) {
                    MC_CHECK(b.v->assign_op(op, *w));
                    b.r = ref_binary(op, b.r, r);
                });
            }
        }
    }
    s.obs = [](BState const &b) {
        same(*b.v, b.r, "state");
        // self-combination
        for (int o = 0; o < 4; ++o) {
            auto const op = static_cast<BOp>(o);
            same(*b.v->binary(op, *b.v), ref_binary(op, b.r, b.r), "a op a");
            auto w = b.v->clone();
            w->assign_op(op, *w);
            same(*w, ref_binary(op, b.r, b.r), "a op= a");
        }
    };
    s.keyf = std_key;
    mc::Scope sc{[&] { return p.name(); }};
    // wide storage leaves many unused bits, whose contents multiply the states: bound the history length there
    mc::closure(s, {.max_depth = not narrow ? std::size_t{2} : big and not mc::thorough ? std::size_t{1} : ~std::size_t{}});
}
void wide(IBS const &p) {
    auto const n = p.cap();
    mc::Scope sc{[&] { return p.name(); }};
    auto const st = structured(n, false);
    auto const ks = shifts(p);
    for (auto const &r : st) {
        for (int how = 0; how < 4; how += n > 70 and not mc::thorough ? 3 : 1) {
            auto const v = scarred(p, r, how);
            same(*v, r, "built");
            auto const c = v->complement();
            auto rc = r;
            for (auto &x : rc.b) {
                x = !x;
            }
            same(*c, rc, "~");
            mc::step();
            for (auto k : ks) {
                for (bool left : {true, false}) {
                    mc::Scope s2{[&] {
                        return r.str() + " (form " + std::to_string(how) + ") " + (left ? "<<" : ">>") + " " +
                               std::to_string(k);
                    }};
                    auto const want = ref_shift(r, left, k);
                    auto const got = v->shift(left, k);
                    same(*got, want, "shift");
                    mc::step();
                    mc::state(mc::hash_str(want.str()));
                }
                mc::trace();
            }
        }
    }
    std::size_t const stride = mc::thorough ? 1 : 1 + st.size() / 40;
    for (std::size_t i = 0; i < st.size(); ++i) {
        for (std::size_t j = 0; j < st.size(); j += (j < 2 ? 1 : stride)) {
            auto const a = scarred(p, st[i], (i + j) % 4);
            auto const b = scarred(p, st[j], (i / 4 + j) % 4);
            for (int o = 0; o < 4; ++o) {
                auto const op = static_cast<BOp>(o);
                mc::Scope s2{[&] { return st[i].str() + " " + bop_names[o] + " " + st[j].str(); }};
                auto const want = ref_binary(op, st[i], st[j]);
                same(*a->binary(op, *b), want, "binary");
                auto w = a->clone();
                w->assign_op(op, *b);
                same(*w, want, "compound");
                mc::step(2);
                mc::state(mc::hash_str(want.str()));
            }
            mc::trace();
        }
    }
}
// very large capacities: every pair of edge states, every shift by an edge
void huge(IBS const &p) {
    auto const n = p.cap();
    mc::Scope sc{[&] { return p.name(); }};
    auto const st = edge_states(n);
    auto const check = [&](IBS const &v, Ref const &r) {
        for (std::size_t i = 0; i < n; ++i) {
            if (v.get(i) != bool(r.b[i])) {
                mc::fail("index " + std::to_string(i) + " wrong");
            }
        }
        MC_EQ(v.count(), r.count());
        mc::step();
    };
    auto ks = edges(n);
    for (std::size_t k : {n, n + 1, n + 64, n + 65536, ~std::size_t{}}) {
        ks.push_back(k);
    }
    std::vector<std::unique_ptr<IBS>> vs;
    for (std::size_t i = 0; i < st.size(); ++i) {
        vs.push_back(scarred(p, st[i], static_cast<int>(i % 4)));
    }
    std::size_t const stride = n < 1000 or mc::thorough ? 1 : 5;
    for (std::size_t i = 0; i < st.size(); ++i) {
        auto const &r = st[i];
        auto rc = r;
        for (auto &x : rc.b) {
            x = !x;
        }
        check(*vs[i]->complement(), rc);
        for (auto k : ks) {
            for (bool left : {true, false}) {
                mc::Scope s2{[&] { return "edge state " + std::to_string(i) + (left ? " << " : " >> ") + std::to_string(k); }};
                auto const got = vs[i]->shift(left, k);
                check(*got, ref_shift(r, left, k));
                auto w = vs[i]->clone();
                MC_CHECK(w->shift_assign(left, k));
                MC_CHECK(w->eq(*got));
                mc::state(mc::hash_of(n, i, k, left));
            }
        }
        for (std::size_t j = i % stride; j < st.size(); j += stride) {
            for (int o = 0; o < 4; ++o) {
                auto const op = static_cast<BOp>(o);
                mc::Scope s2{[&] { return "edge state " + std::to_string(i) + " " + bop_names[o] + " edge state " + std::to_string(j); }};
                auto const got = vs[i]->binary(op, *vs[j]);
                check(*got, ref_binary(op, r, st[j]));
                auto w = vs[i]->clone();
                w->assign_op(op, *vs[j]);
                MC_CHECK(w->eq(*got));
                mc::trace();
            }
        }
    }
}
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
template <std::size_t N, typename E> using C = mc::cfg<N, E>;
enum struct E6 : std::uint8_t { a, b, c, d, e, f, max };
using closed = mc::list<C<9, u8>, C<10, u8>, C<6, u8>, C<5, u8>, C<5, u16>, C<5, u32>, C<5, u64>, C<8, u8>, C<3, u8>,
                        C<2, u8>, C<1, u8>, C<4, u8>, mc::cfg<E6::max, u8>, C<7, u8>
#if MC_TIER_THOROUGH
                        , C<11, u8>, C<7, u64>, C<7, u32>
#endif
                        >;
using wides = mc::list<C<128, u64>, C<129, u64>, C<127, u64>, C<65, u8>, C<64, u16>, C<65, u64>, C<63, u64>, C<64, u64>,
                       C<65, u32>, C<33, u16>, C<32, u16>, C<17, u8>, C<25, u8>, C<24, u8>, C<16, u8>, C<33, u32>,
                       C<31, u32>, C<96, u32>, C<15, u16>, C<12, u8>
#if MC_TIER_THOROUGH
                       , C<100, u8>, C<193, u64>, C<192, u64>, C<49, u16>
#endif
                       >;
int init = [] {
    mc::part_each(closed{}, []<typename X> {
        auto p = std::make_shared<BS<X::value, typename X::type>>();
        mc::Reg{"closure_" + p->name(), [=] { close_it(*p, p->cap() <= (sizeof(typename X::type) == 1 ? 6 : 4), sizeof(typename X::type) == 1); }};
    });
    mc::part_each(wides{}, []<typename X> {
        auto p = std::make_shared<BS<X::value, typename X::type>>();
        mc::Reg{"wide_" + p->name(), [=] { wide(*p); }};
    });
    mc::part_each(mc::list<C<300, u8>, C<300, u64>, C<70001, u16>, C<70001, u64>>{}, []<typename X> {
        auto p = std::make_shared<BS<X::value, typename X::type>>();
        mc::Reg{"huge_" + p->name(), [=] { huge(*p); }};
    });
    return 0;
}();
} // namespace
