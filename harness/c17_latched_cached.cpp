#include <stdx/cached.hpp>
#include <stdx/latched.hpp>

#include <mc.hpp>

#include <optional>
namespace {
int calls = 0;
bool throw_next = false;
struct Boom {};
auto compute() -> int {
    ++calls;
    if (throw_next) {
        throw_next = false;
        throw Boom{};
    }
    return calls;
}
struct Val {
    int n;
    std::string pad{"a string that is too long for the small buffer"};
};
struct Pinned { // neither copyable nor movable
    int n;
    explicit Pinned(int x) : n{x} {}
    Pinned(Pinned &&) = delete;
};
auto get(int const &x) { return x; }
auto get(Val const &x) { MC_CHECK(x.pad.size() > 40); return x.n; }
auto get(Pinned const &x) { return x.n; }

int ref_target = 0;
struct RefFn {
    auto operator()() const -> int const & { ref_target = compute(); return ref_target; }
};
struct MoveOnlyFn {
    std::unique_ptr<int> p = std::make_unique<int>(5);
    auto operator()() const -> Val { MC_EQ(*p, 5); return Val{compute()}; }
};
struct PinFn {
    auto operator()() const -> Pinned { return Pinned{compute()}; }
};
struct OverFn { // const and non-const calls behave the same
    int k = 3;
    auto operator()() const -> int const { MC_EQ(k, 3); return compute(); }
};

template <typename W> struct Life {
    constexpr static bool is_cached = requires(W w) { w.reset(); };
    constexpr static bool copyable = std::is_copy_constructible_v<W>;
    using value_type = typename W::value_type;
    static_assert(std::is_same_v<stdx::latched_value_t<W>, value_type> and
                  std::is_same_v<stdx::cached_value_t<W const &>, value_type>);

    // one run: `depth` choices among the operations, on a fresh object
    static void run(int depth, auto make) {
        mc::all_choices([&](mc::Choices &c) {
            std::string log;
            mc::Scope sc{[&] { return log; }};
            calls = 0;
            throw_next = false;
            std::unique_ptr<W> w{new W(make())};
            std::optional<int> model;
            int mcalls = 0;
            auto access = [&](auto const &name, auto f, std::optional<int> &m) {
                log += std::string{" "} + name;
                bool const will_throw = throw_next;
                bool thrown = false;
                bool const need = not m.has_value();
                int got = 0;
                try {
                    got = f();
                } catch (Boom const &) {
                    thrown = true;
                }
                if (need) {
                    ++mcalls;
                    if (not will_throw) {
                        m = mcalls;
                    }
                }
                MC_EQ(calls, mcalls);
                MC_EQ(thrown, need and will_throw);
                if (not thrown) {
                    MC_EQ(got, *m);
                }
            };
            MC_EQ(calls, 0);
            for (int i = 0; i < depth; ++i) {
                mc::step();
                auto const &cw = *w;
                constexpr std::size_t base = 9, extra = is_cached ? 3 : 0;
                auto const op = c.next(base + (copyable ? 2 : 0) + extra);
                switch (op) {
                case 0: log += " has_value"; MC_EQ(w->has_value(), model.has_value()); break;
                case 1: log += " bool"; MC_EQ(static_cast<bool>(*w), model.has_value()); break;
                case 2: access("value", [&] { return get(w->value()); }, model); break;
                case 3: access("*", [&] { return get(*cw); }, model); break;
                case 4:
                    access("->", [&] {
                        auto const *p = cw.operator->();
                        auto const r = get(*p);
                        MC_CHECK(p == &cw.value());
                        return r;
                    }, model);
                    break;
                case 5: access("move(w).value", [&] { return get(std::move(cw).value()); }, model); break;
                case 6: access("*move(w)", [&] { return get(*std::move(*w)); }, model); break;
                case 7: access("* twice", [&] { auto const r = get(**w); MC_EQ(get(w->value()), r); return r; }, model); break;
                case 8:
                    if (throw_next) {
                        return; // already armed
                    }
                    log += " arm-throw";
                    throw_next = true;
                    break;
                default:
                    if (copyable and op == base) {
                        if constexpr (copyable) {
                            log += " copy";
                            auto n = std::make_unique<W>(cw);
                            MC_EQ(calls, mcalls);
                            w = std::move(n);
                        }
                    } else if (copyable and op == base + 1) {
                        if constexpr (copyable) { // a copy and the original do not influence each other
                            auto n = cw;
                            auto m2 = model;
                            access("copied.value", [&] { return get(n.value()); }, m2);
                        }
                    } else if constexpr (is_cached) {
                        switch (op - base - (copyable ? 2 : 0)) {
                        case 0: log += " reset"; w->reset(); model.reset(); break;
                        case 1: {
                            model.reset();
                            access("refresh", [&] {
                                auto &r = w->refresh();
                                MC_EQ(calls, mcalls + 1);
                                MC_CHECK(w->has_value());
                                auto const v = get(r);
                                MC_CHECK(&r == &w->value());
                                return v;
                            }, model);
                            break;
                        }
                        case 2:
                            log += " reset twice";
                            w->reset();
                            w->reset();
                            model.reset();
                            break;
                        }
                    }
                }
                MC_EQ(calls, mcalls);
                MC_EQ(w->has_value(), model.has_value());
                MC_EQ(static_cast<bool>(std::as_const(*w)), model.has_value());
                MC_EQ(calls, mcalls);
                mc::state(mc::hash_of(model.value_or(-1), mcalls, throw_next, op));
            }
        });
    }
};
template <template <typename> typename W> void kinds(int depth) {
    auto lam = [] { return compute(); };
    Life<W<decltype(lam)>>::run(depth, [&] { return W<decltype(lam)>{lam}; });
}
template <template <typename> typename W, typename F> void kind(int depth, auto make) {
    Life<W<F>>::run(depth, make);
}
int d(int quick, int thorough) { return mc::thorough ? thorough : quick; }

#if MC_IN_PART(0)
MC_SECTION("latched_lambda") { kinds<stdx::latched>(d(5, 6)); }
MC_SECTION("latched_returns_reference") {
    static_assert(std::is_same_v<stdx::latched<RefFn>::value_type, int>);
    kind<stdx::latched, RefFn>(d(4, 5), [] { return stdx::latched<RefFn>{RefFn{}}; });
}
#endif
#if MC_IN_PART(1)
MC_SECTION("latched_move_only_function") {
    kind<stdx::latched, MoveOnlyFn>(d(4, 5), [] { return stdx::latched<MoveOnlyFn>{MoveOnlyFn{}}; });
}
MC_SECTION("latched_unmovable_value") { kind<stdx::latched, PinFn>(d(4, 5), [] { return stdx::latched<PinFn>{PinFn{}}; }); }
MC_SECTION("latched_const_result") { kind<stdx::latched, OverFn>(d(4, 5), [] { return stdx::latched{OverFn{}}; }); }
#endif
#if MC_IN_PART(2)
MC_SECTION("cached_lambda") { kinds<stdx::cached>(d(5, 6)); }
MC_SECTION("cached_returns_reference") { kind<stdx::cached, RefFn>(d(4, 5), [] { return stdx::cached<RefFn>{RefFn{}}; }); }
MC_SECTION("cached_const_result") { kind<stdx::cached, OverFn>(d(4, 5), [] { return stdx::cached{OverFn{}}; }); }
#endif
#if MC_IN_PART(3)
MC_SECTION("cached_move_only_function") {
    kind<stdx::cached, MoveOnlyFn>(d(4, 5), [] { return stdx::cached<MoveOnlyFn>{MoveOnlyFn{}}; });
}
MC_SECTION("cached_unmovable_value") { kind<stdx::cached, PinFn>(d(4, 5), [] { return stdx::cached<PinFn>{PinFn{}}; }); }
#endif
} // namespace
