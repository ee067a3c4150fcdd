// Stand-in for the subset of libsimdpp which cppcore uses (the real library is not installed here).
//
// PBV_SIMD_NULL=1: like libsimdpp without any instruction set (the generic code paths are compiled).
// otherwise: like libsimdpp with SSE2, the default x86-64 build: 128-bit base vectors, wider
// vectors are arrays of those, aligned loads and stores really require the 16-byte alignment.
#pragma once
#include <xmmintrin.h>
#include <emmintrin.h>
#include <array>
#include <vector>
#include <limits>
#include <functional>
#include <cstdint>
#include <cstring>
#include <type_traits>

#define SIMDPP_USE_SSE3 0
#define SIMDPP_USE_AVX 0
#define SIMDPP_USE_AVX2 0
#define SIMDPP_USE_FMA3 0
#if PBV_SIMD_NULL
# define SIMDPP_USE_NULL 1
# define SIMDPP_USE_SSE2 0
#else
# define SIMDPP_USE_NULL 0
# define SIMDPP_USE_SSE2 1
#endif

namespace simdpp {

template<unsigned N, class E = void> struct float32;
template<unsigned N, class E = void> struct float64;
template<unsigned N, class E = void> struct uint32;
template<unsigned N, class E = void> struct uint64;

template<> struct float32<4, void> {
    using element_type = float;
    using base_vector_type = float32<4, void>;
    static constexpr unsigned length = 4, base_length = 4, vec_length = 1;
    __m128 d;
    float32() : d(_mm_setzero_ps()) {}
    float32(__m128 v) : d(v) {}
    operator __m128() const { return d; }
    float32 const& eval() const { return *this; }
    float32& vec(unsigned) { return *this; }
    float32 const& vec(unsigned) const { return *this; }
};
template<> struct float64<2, void> {
    using element_type = double;
    using base_vector_type = float64<2, void>;
    static constexpr unsigned length = 2, base_length = 2, vec_length = 1;
    __m128d d;
    float64() : d(_mm_setzero_pd()) {}
    float64(__m128d v) : d(v) {}
    operator __m128d() const { return d; }
    float64 const& eval() const { return *this; }
    float64& vec(unsigned) { return *this; }
    float64 const& vec(unsigned) const { return *this; }
};
template<unsigned N> struct float32<N, void> {
    using element_type = float;
    using base_vector_type = float32<4, void>;
    static constexpr unsigned length = N, base_length = 4, vec_length = N / 4;
    base_vector_type d[vec_length];
    float32 const& eval() const { return *this; }
    base_vector_type& vec(unsigned i) { return d[i]; }
    base_vector_type const& vec(unsigned i) const { return d[i]; }
};
template<unsigned N> struct float64<N, void> {
    using element_type = double;
    using base_vector_type = float64<2, void>;
    static constexpr unsigned length = N, base_length = 2, vec_length = N / 2;
    base_vector_type d[vec_length];
    float64 const& eval() const { return *this; }
    base_vector_type& vec(unsigned i) { return d[i]; }
    base_vector_type const& vec(unsigned i) const { return d[i]; }
};
template<unsigned N> struct uint32<N, void> {
    using element_type = std::uint32_t;
    static constexpr unsigned length = N;
    std::uint32_t d[N];
};
template<unsigned N> struct uint64<N, void> {
    using element_type = std::uint64_t;
    static constexpr unsigned length = N;
    std::uint64_t d[N];
};

using float32x4 = float32<4>;
using float32x8 = float32<8>;
using float64x2 = float64<2>;
using float64x4 = float64<4>;

namespace shim {
    // elementwise access through memory; the layout of every vector is just its elements
    template<class V> std::array<typename V::element_type, V::length> get(V const& v) {
        std::array<typename V::element_type, V::length> a;
        static_assert(sizeof(a) == sizeof(v), "");
        std::memcpy(a.data(), &v, sizeof(a));
        return a;
    }
    template<class V> V put(std::array<typename V::element_type, V::length> const& a) {
        V v;
        std::memcpy(static_cast<void*>(&v), a.data(), sizeof(a));
        return v;
    }
    inline __m128 load_a(float const* p) { return _mm_load_ps(p); }
    inline __m128d load_a(double const* p) { return _mm_load_pd(p); }
    inline void store_a(float* p, __m128 v) { _mm_store_ps(p, v); }
    inline void store_a(double* p, __m128d v) { _mm_store_pd(p, v); }
    inline __m128 add(float32x4 a, float32x4 b) { return _mm_add_ps(a.d, b.d); }
    inline __m128d add(float64x2 a, float64x2 b) { return _mm_add_pd(a.d, b.d); }
    inline __m128 sub(float32x4 a, float32x4 b) { return _mm_sub_ps(a.d, b.d); }
    inline __m128d sub(float64x2 a, float64x2 b) { return _mm_sub_pd(a.d, b.d); }
    inline __m128 mul(float32x4 a, float32x4 b) { return _mm_mul_ps(a.d, b.d); }
    inline __m128d mul(float64x2 a, float64x2 b) { return _mm_mul_pd(a.d, b.d); }
    template<class V> struct is_vec : std::false_type {};
    template<unsigned N> struct is_vec<float32<N, void>> : std::true_type {};
    template<unsigned N> struct is_vec<float64<N, void>> : std::true_type {};
    template<class V> using if_vec = typename std::enable_if<is_vec<V>::value, V>::type;
} // namespace shim

template<class V> shim::if_vec<V> operator+(V const& a, V const& b) {
    V r; for (unsigned i = 0; i < V::vec_length; ++i) { r.vec(i) = shim::add(a.vec(i), b.vec(i)); } return r;
}
template<class V> shim::if_vec<V> operator-(V const& a, V const& b) {
    V r; for (unsigned i = 0; i < V::vec_length; ++i) { r.vec(i) = shim::sub(a.vec(i), b.vec(i)); } return r;
}
template<class V> shim::if_vec<V> operator*(V const& a, V const& b) {
    V r; for (unsigned i = 0; i < V::vec_length; ++i) { r.vec(i) = shim::mul(a.vec(i), b.vec(i)); } return r;
}
template<class V> V make_float(typename V::element_type x);
template<unsigned N> float32<N> operator*(float s, float32<N> const& a) { return make_float<float32<N>>(s) * a; }
template<unsigned N> float64<N> operator*(double s, float64<N> const& a) { return make_float<float64<N>>(s) * a; }
template<unsigned N> float32<N> operator*(float32<N> const& a, float s) { return make_float<float32<N>>(s) * a; }
template<unsigned N> float64<N> operator*(float64<N> const& a, double s) { return make_float<float64<N>>(s) * a; }
template<class V> shim::if_vec<V> add(V const& a, V const& b) { return a + b; }
template<class V> shim::if_vec<V> sub(V const& a, V const& b) { return a - b; }
template<class V> shim::if_vec<V> mul(V const& a, V const& b) { return a * b; }
template<class V> shim::if_vec<V> neg(V const& a) {
    auto x = shim::get(a); for (auto& e : x) { e = -e; } return shim::put<V>(x);
}
template<class V> shim::if_vec<V> fmadd(V const& a, V const& b, V const& c) { return a * b + c; }

template<class V, class T> V load(T const* p) {
    auto const q = reinterpret_cast<typename V::element_type const*>(p);
    V r; for (unsigned i = 0; i < V::vec_length; ++i) { r.vec(i) = shim::load_a(q + i * V::base_length); } return r;
}
template<class V, class T> V load_u(T const* p) {
    V r; std::memcpy(static_cast<void*>(&r), static_cast<void const*>(p), sizeof(V)); return r;
}
template<class T, class V> shim::if_vec<V> store(T* p, V const& v) {
    auto const q = reinterpret_cast<typename V::element_type*>(p);
    for (unsigned i = 0; i < V::vec_length; ++i) { shim::store_a(q + i * V::base_length, v.vec(i).d); }
    return v;
}
template<class T, class V> shim::if_vec<V> store_u(T* p, V const& v) {
    std::memcpy(static_cast<void*>(p), static_cast<void const*>(&v), sizeof(V)); return v;
}
template<class V> V make_float(typename V::element_type x) {
    std::array<typename V::element_type, V::length> a; a.fill(x); return shim::put<V>(a);
}
template<class V> V make_uint(std::uint64_t x0, std::uint64_t x1) {
    V v;
    for (unsigned i = 0; i < V::length; ++i) {
        v.d[i] = static_cast<typename V::element_type>(i % 2 ? x1 : x0);
    }
    return v;
}
template<class V, class T> V load_splat(T const* p) {
    typename V::element_type x; std::memcpy(&x, static_cast<void const*>(p), sizeof(x));
    return make_float<V>(x);
}
template<unsigned N> float32<N> bit_xor(float32<N> const& a, uint32<N> const& b) {
    auto x = shim::get(a);
    for (unsigned i = 0; i < N; ++i) { std::uint32_t u; std::memcpy(&u, &x[i], 4); u ^= b.d[i]; std::memcpy(&x[i], &u, 4); }
    return shim::put<float32<N>>(x);
}
template<unsigned N> float64<N> bit_xor(float64<N> const& a, uint64<N> const& b) {
    auto x = shim::get(a);
    for (unsigned i = 0; i < N; ++i) { std::uint64_t u; std::memcpy(&u, &x[i], 8); u ^= b.d[i]; std::memcpy(&x[i], &u, 8); }
    return shim::put<float64<N>>(x);
}
template<class R, class V> R bit_cast(V const& v) {
    static_assert(sizeof(R) == sizeof(V), "");
    R r; std::memcpy(static_cast<void*>(&r), static_cast<void const*>(&v), sizeof(R)); return r;
}
template<class V> typename shim::if_vec<V>::element_type reduce_add(V const& v) {
    auto const x = shim::get(v);
    typename V::element_type s = 0; for (auto e : x) { s += e; } return s;
}
// 2x2 transpose of the pairs: a = {a0 b0 a2 b2...}, b = {a1 b1 a3 b3 ...}
template<class V> void transpose2(V& a, V& b) {
    auto x = shim::get(a); auto y = shim::get(b);
    for (unsigned i = 0; i + 1 < V::length; i += 2) { std::swap(x[i + 1], y[i]); }
    a = shim::put<V>(x); b = shim::put<V>(y);
}
template<unsigned s0, unsigned s1, class V> shim::if_vec<V> permute2(V const& a) {
    auto const x = shim::get(a); auto r = x;
    for (unsigned i = 0; i + 1 < V::length; i += 2) { r[i] = x[i + s0]; r[i + 1] = x[i + s1]; }
    return shim::put<V>(r);
}
template<unsigned s0, unsigned s1, unsigned s2, unsigned s3, class V>
shim::if_vec<V> shuffle4x2(V const& a, V const& b) {
    auto const x = shim::get(a); auto const y = shim::get(b); auto r = x;
    constexpr unsigned s[4] = {s0, s1, s2, s3};
    for (unsigned g = 0; g + 3 < V::length; g += 4) {
        for (unsigned k = 0; k < 4; ++k) { r[g + k] = s[k] < 4 ? x[g + s[k]] : y[g + s[k] - 4]; }
    }
    return shim::put<V>(r);
}

} // namespace simdpp
