// Analysis translation unit: instantiates every public operation of the filter so that the whole
// of include/diva.hpp is present in the IR that the analyses inspect.  It is never linked or run.
#include <string>
#include <string_view>
#include <vector>
#include "diva.hpp"

template class Diva<true>;
template class Diva<false>;

namespace {
struct FixedKey { uint8_t bytes[8]; };
}
using ItInt = const uint64_t *;
using ItStr = const std::string_view *;

template Diva<true>::Diva(const uint32_t, const ItInt, const ItInt, const uint32_t, const uint32_t, const float);
template Diva<true>::Diva(const uint32_t, const ItStr, const ItStr, const uint32_t, const float);
template Diva<false>::Diva(const uint32_t, const ItInt, const ItInt, const uint32_t, const uint32_t, const float);
template Diva<false>::Diva(const uint32_t, const ItStr, const ItStr, const uint32_t, const float);

// Layout facts for the analyses: only names that the repository's own tests already rely on.
#include <cstddef>
#include <utility>
class DivaTests {
public:
    template <bool I> using D = Diva<I>;
    template <bool I> using S = typename Diva<I>::InfixStore;
    static constexpr unsigned long iter_leaf = offsetof(wormhole_iter, leaf);
    static constexpr unsigned long iter_int_leaf = offsetof(wormhole_int_iter, leaf);
    static constexpr unsigned long iter_ref = offsetof(wormhole_iter, ref);
    static constexpr unsigned long iter_int_ref = offsetof(wormhole_int_iter, ref);
    template <bool I> static constexpr unsigned long store_ptr = offsetof(S<I>, ptr);
    template <bool I> static constexpr unsigned long store_size = sizeof(S<I>);
    template <bool I> static constexpr unsigned long infix_size = offsetof(D<I>, infix_size_);
    template <bool I> static constexpr unsigned long scaled_sizes = offsetof(D<I>, scaled_sizes_);
    template <bool I> static constexpr unsigned long size_scalars = offsetof(D<I>, size_scalars_);
    template <bool I> static constexpr unsigned long implicit_scalars = offsetof(D<I>, implicit_scalars_);
    template <bool I> static constexpr unsigned long load_factor = offsetof(D<I>, load_factor_);
    template <bool I> static constexpr unsigned long load_factor_alt = offsetof(D<I>, load_factor_alt_);
    template <bool I> static constexpr unsigned long rng_seed = offsetof(D<I>, rng_seed_);
    template <bool I> static constexpr unsigned long tree = I ? offsetof(D<I>, better_tree_int_) : offsetof(D<I>, better_tree_);
    template <bool I> static const S<I> &st(const void *p) { return *static_cast<const S<I> *>(p); }
    template <bool I> static unsigned g_elem(const void *p) { return st<I>(p).GetElemCount(); }
    template <bool I> static unsigned g_grade(const void *p) { return st<I>(p).GetSizeGrade(); }
    template <bool I> static unsigned g_invalid(const void *p) { return st<I>(p).GetInvalidBits(); }
    template <bool I> static unsigned g_partial(const void *p) { return st<I>(p).IsPartialKey(); }
    template <bool I> static unsigned g_words(unsigned slots, unsigned width) { return S<I>::GetPtrWordCount(slots, width); }
    template <bool I> using B = typename Diva<I>::InfiniteByteString;
    template <bool I> static bool k_lt(const uint8_t *a, unsigned n, const uint8_t *b, unsigned m) { return B<I>(a, n) < B<I>(b, m); }
    template <class X> static auto le(const X &a, const X &b, int) -> decltype(a <= b) { return a <= b; }
    template <class X> static bool le(const X &a, const X &b, long) { return !(b < a); }
    template <bool I> static bool k_le(const uint8_t *a, unsigned n, const uint8_t *b, unsigned m) { return le(B<I>(a, n), B<I>(b, m), 0); }
    template <bool I> static bool k_eq(const uint8_t *a, unsigned n, const uint8_t *b, unsigned m) { return B<I>(a, n) == B<I>(b, m); }
    template <bool I> static bool k_prefix(const uint8_t *a, unsigned n, const uint8_t *b, unsigned m, unsigned k) { return B<I>(a, n).IsPrefixOf(B<I>(b, m), k); }
    template <bool I> using G = decltype(std::declval<const D<I> &>().GetSharedIgnoreImplicitLengths(std::declval<B<I>>(), std::declval<B<I>>()));
    template <bool I> static unsigned g_shared(const void *p) { const auto &[a, b, c] = *static_cast<const G<I> *>(p); return a; }
    template <bool I> static unsigned g_ignore(const void *p) { const auto &[a, b, c] = *static_cast<const G<I> *>(p); return b; }
    template <bool I> static unsigned g_implicit(const void *p) { const auto &[a, b, c] = *static_cast<const G<I> *>(p); return c; }
    template <bool I> static constexpr unsigned long target_size = D<I>::infix_store_target_size;
    template <bool I> static constexpr unsigned long base_implicit = D<I>::base_implicit_size;
    template <bool I> static constexpr unsigned long grow_sep = D<I>::size_scalar_shrink_grow_sep;
};
#define EXPORT(n) extern "C" { extern const unsigned long vf_##n##_0 = DivaTests::n<false>; \
                               extern const unsigned long vf_##n##_1 = DivaTests::n<true>; }
EXPORT(store_ptr) EXPORT(store_size) EXPORT(infix_size) EXPORT(scaled_sizes) EXPORT(size_scalars)
EXPORT(implicit_scalars) EXPORT(load_factor) EXPORT(load_factor_alt) EXPORT(rng_seed) EXPORT(tree)
EXPORT(target_size) EXPORT(base_implicit) EXPORT(grow_sep)
#define GETTER(n) extern "C" { unsigned vf_g_##n##_0(const void *p) { return DivaTests::g_##n<false>(p); } \
                               unsigned vf_g_##n##_1(const void *p) { return DivaTests::g_##n<true>(p); } }
#define KEYCMP(n) extern "C" { \
    bool vf_k_##n##_0(const uint8_t *a, unsigned l, const uint8_t *b, unsigned m) { return DivaTests::k_##n<false>(a, l, b, m); } \
    bool vf_k_##n##_1(const uint8_t *a, unsigned l, const uint8_t *b, unsigned m) { return DivaTests::k_##n<true>(a, l, b, m); } }
KEYCMP(lt) KEYCMP(le) KEYCMP(eq)
extern "C" {
bool vf_k_prefix_0(const uint8_t *a, unsigned l, const uint8_t *b, unsigned m, unsigned k) { return DivaTests::k_prefix<false>(a, l, b, m, k); }
bool vf_k_prefix_1(const uint8_t *a, unsigned l, const uint8_t *b, unsigned m, unsigned k) { return DivaTests::k_prefix<true>(a, l, b, m, k); }
}
GETTER(shared) GETTER(ignore) GETTER(implicit)
GETTER(elem) GETTER(grade) GETTER(invalid) GETTER(partial)
extern "C" {
unsigned vf_g_words_0(unsigned slots, unsigned width) { return DivaTests::g_words<false>(slots, width); }
unsigned vf_g_words_1(unsigned slots, unsigned width) { return DivaTests::g_words<true>(slots, width); }
extern const unsigned long vf_iter_leaf_0 = DivaTests::iter_leaf;
extern const unsigned long vf_iter_leaf_1 = DivaTests::iter_int_leaf;
extern const unsigned long vf_iter_ref_0 = DivaTests::iter_ref;
extern const unsigned long vf_iter_ref_1 = DivaTests::iter_int_ref;
extern const unsigned long vf_diva_size_0 = sizeof(Diva<false>);
extern const unsigned long vf_diva_size_1 = sizeof(Diva<true>);
}
