// C16: sparse and dense array primitives -- every sparsity pattern, row range, alignment and element type within bounds
#include "kpm_ref.hpp"
#include "compute/kernel_polynomial.hpp"
#include "kpm/Starter.hpp"
#include "numeric/random.hpp"
#include "detail/algorithm.hpp"
using namespace cpb;
using pbv::str;
using cd = std::complex<double>;

namespace {

template<class S> struct Name;
template<> struct Name<float> { static char const* get() { return "float"; } static constexpr num::Tag tag = num::Tag::f32; };
template<> struct Name<double> { static char const* get() { return "double"; } static constexpr num::Tag tag = num::Tag::f64; };
template<> struct Name<std::complex<float>> { static char const* get() { return "complex float"; } static constexpr num::Tag tag = num::Tag::cf32; };
template<> struct Name<cd> { static char const* get() { return "complex double"; } static constexpr num::Tag tag = num::Tag::cf64; };

/// Small values: all sums of products are exact in single precision, and the parts differ
template<class S> S value(int k) { return num::force_cast<S>(cd(((k * 7 + 3) % 13 - 6) * 0.25 + 0.125, ((k * 5 + 1) % 11 - 5) * 0.5)); }
template<class S> cd wide(S v) { return cd(v); }

struct Pattern { int rows, cols; std::vector<std::pair<int, int>> at; std::string name; };

template<class S> SparseMatrixX<S> sparse(Pattern const& p) {
    SparseMatrixX<S> m(p.rows, p.cols);
    std::vector<Eigen::Triplet<S>> t; int k = 0;
    for (auto& a : p.at) { t.emplace_back(a.first, a.second, value<S>(k++)); }
    m.setFromTriplets(t.begin(), t.end()); m.makeCompressed();
    return m;
}
template<class S> MatrixXcd dense(Pattern const& p) {
    MatrixXcd m = MatrixXcd::Zero(p.rows, p.cols); int k = 0;
    for (auto& a : p.at) { m(a.first, a.second) += wide(value<S>(k++)); }
    return m;
}
template<class M> MatrixXcd wide_matrix(M const& m) {
    MatrixXcd r(m.rows(), m.cols());
    for (idx_t i = 0; i < m.rows(); ++i) { for (idx_t j = 0; j < m.cols(); ++j) { r(i, j) = cd(m(i, j)); } }
    return r;
}
std::string where(MatrixXcd const& got, MatrixXcd const& want) {
    if (got.rows() != want.rows() || got.cols() != want.cols()) { return "the size differs"; }
    for (idx_t i = 0; i < got.rows(); ++i) { for (idx_t j = 0; j < got.cols(); ++j) { if (got(i, j) != want(i, j)) { return str("(", i, ",", j, ") is ", got(i, j), ", expected ", want(i, j)); } } }
    return "same";
}
bool same(pbv::Worker& w, char const* what, MatrixXcd const& got, MatrixXcd const& want, std::string const& at) {
    return w.check(got.rows() == want.rows() && got.cols() == want.cols() && (got - want).cwiseAbs().sum() == 0, what, [&] { return str(what, " ", at, ": ", where(got, want)); });
}

// ------------------------------------------------------------------------------------------------ conversions

template<class S> bool conversions(pbv::Worker& w, Pattern const& p) {
    auto const m = sparse<S>(p);
    auto const d = dense<S>(p);
    bool ok = true;
    // references
    auto const ref = ComplexCsrConstRef(csrref(m));
    ok &= w.check(ref.rows == p.rows && ref.cols == p.cols && ref.nnz == static_cast<int>(p.at.size()) && ref.tag == Name<S>::tag, "csr view", [&] { return std::string("csr view: sizes or type"); });
    {
        auto const dr = ref.data_ref(); auto const ir = ref.indices_ref(); auto const pr = ref.indptr_ref();
        ok &= w.check(dr.size() == ref.nnz && ir.size() == ref.nnz && pr.size() == p.rows + 1 && dr.tag == Name<S>::tag && ir.tag == num::Tag::i32 && pr.tag == num::Tag::i32, "csr view", [&] { return std::string("csr view: sizes of the parts"); });
        MatrixXcd r = MatrixXcd::Zero(p.rows, p.cols);
        auto const v = static_cast<S const*>(dr.data); auto const c = static_cast<storage_idx_t const*>(ir.data); auto const q = static_cast<storage_idx_t const*>(pr.data);
        for (int i = 0; i < p.rows; ++i) { for (auto n = q[i]; n < q[i + 1]; ++n) { r(i, c[n]) += cd(v[n]); } }
        ok &= same(w, "csr view", r, d, "");
    }
    int longest = 0; { std::vector<int> n(static_cast<size_t>(p.rows)); for (auto& a : p.at) { longest = std::max(longest, ++n[static_cast<size_t>(a.first)]); } }
    ok &= w.check(sparse::max_nnz_per_row(m) == longest, "max_nnz_per_row", [&] { return str("max_nnz_per_row is ", sparse::max_nnz_per_row(m), ", expected ", longest); });
    // ELLPACK
    auto const e = num::csr_to_ell(m);
    ok &= w.check(e.rows() == p.rows && e.cols() == p.cols && e.nnz_per_row >= longest && e.nnz_per_row <= std::max(longest, 1), "ellpack size", [&] { return str("ELLPACK: ", e.rows(), "x", e.cols(), " with ", e.nnz_per_row, " per row"); });
    {
        MatrixXcd r = MatrixXcd::Zero(p.rows, p.cols); bool range = true;
        std::vector<int> calls(static_cast<size_t>(p.rows));
        e.for_each([&](idx_t i, idx_t j, S v) { if (j < 0 || j >= std::max(p.cols, 1) || i < 0 || i >= p.rows) { range = false; } else { ++calls[static_cast<size_t>(i)]; if (p.cols) { r(i, j) += cd(v); } } });
        ok &= w.check(range, "ellpack range", [&] { return std::string("ELLPACK: an index is out of range"); });
        if (range) { ok &= same(w, "csr_to_ell", r, d, ""); }
        for (auto c : calls) { ok &= w.check(c == e.nnz_per_row, "ellpack for_each", [&] { return std::string("for_each does not visit every element once"); }); }
        if (p.rows <= 8) {
            for (int s = 0; s <= p.rows; ++s) { for (int t = s; t <= p.rows; ++t) {
                MatrixXcd q = MatrixXcd::Zero(p.rows, p.cols), want = d; want.topRows(s).setZero(); want.bottomRows(p.rows - t).setZero();
                e.for_slice(s, t, [&](idx_t i, idx_t j, S v) { if (p.cols) { q(i, j) += cd(v); } });
                ok &= same(w, "for_slice", q, want, str("rows ", s, " to ", t));
            } }
        }
        auto const er = ComplexEllConstRef(ellref(e));
        ok &= w.check(er.rows == p.rows && er.cols == p.cols && er.nnz_per_row == e.nnz_per_row && er.tag == Name<S>::tag && er.pitch >= p.rows && er.size() == er.pitch * er.nnz_per_row && er.data_ref().size() == er.size() && er.indices_ref().size() == er.size(), "ellpack view", [&] { return std::string("ELLPACK view: sizes or type"); });
        MatrixXcd q = MatrixXcd::Zero(p.rows, p.cols);
        if (p.cols) { for (int n = 0; n < er.nnz_per_row; ++n) { for (int i = 0; i < p.rows; ++i) { q(i, er.indices[n * er.pitch + i]) += cd(static_cast<S const*>(er.void_data)[n * er.pitch + i]); } } ok &= same(w, "ellpack view", q, d, ""); }
    }
    // element access
    auto const loop = sparse::make_loop(m);
    {
        MatrixXcd r = MatrixXcd::Zero(p.rows, p.cols); int calls = 0;
        loop.for_each([&](idx_t i, idx_t j, S v) { r(i, j) += cd(v); ++calls; });
        ok &= same(w, "for_each", r, d, "");
        ok &= w.check(calls == static_cast<int>(p.at.size()), "for_each", [&] { return str(calls, " calls"); });
        r.setZero();
        for (int i = 0; i < p.rows; ++i) { loop.for_each_in_row(i, [&](idx_t j, S v) { r(i, j) += cd(v); }); }
        ok &= same(w, "for_each_in_row", r, d, "");
        r.setZero();
        for (int i = 0; i < p.rows; ++i) { for (auto it = sparse_row(m, i); it; ++it) { r(it.row(), it.col()) += cd(it.value()); } }
        ok &= same(w, "sparse_row", r, d, "");
    }
    auto const nnz = static_cast<int>(p.at.size());
    for (int size = 1; size <= std::min(nnz + 1, 24); ++size) {
        MatrixXcd r = MatrixXcd::Zero(p.rows, p.cols), again = r; int in_buffer = 0, done = 0;
        std::vector<std::pair<idx_t, idx_t>> buffer(static_cast<size_t>(size)); std::vector<S> values(static_cast<size_t>(size));
        loop.buffered_for_each(size, [&](idx_t i, idx_t j, S v, idx_t n) {
            w.check(n == in_buffer && n < size, "buffer position", [&] { return str("buffer position ", n, " instead of ", in_buffer, " (size ", size, ")"); });
            if (n < 0 || n >= size) { return; }
            ++in_buffer; r(i, j) += cd(v); buffer[static_cast<size_t>(n)] = {i, j}; values[static_cast<size_t>(n)] = v;
        }, [&](idx_t outer, idx_t data, idx_t count) {
            w.check(count == in_buffer, "buffer", [&] { return str("the buffer holds ", in_buffer, " elements but is reported to hold ", count); });
            int k = 0; bool good = true;
            loop.slice_for_each(outer, data, count, [&](idx_t i, idx_t j, S v, idx_t n) {
                again(i, j) += cd(v);
                if (n != k || k >= in_buffer || buffer[static_cast<size_t>(k)] != std::make_pair(i, j) || values[static_cast<size_t>(k)] != v) { good = false; }
                ++k;
            });
            w.check(good && k == in_buffer, "slice", [&] { return str("going over the same slice again (start ", outer, ", ", data, ", size ", count, ") gives other elements"); });
            done += in_buffer; in_buffer = 0;
        });
        ok &= same(w, "buffered_for_each", r, d, str("buffer of ", size));
        ok &= same(w, "slice_for_each", again, d, str("buffer of ", size));
        ok &= w.check(done == nnz && in_buffer == 0, "buffer", [&] { return str(done, " of ", nnz, " elements were processed (buffer of ", size, ")"); });
    }
    // the same matrix from an inserter, with the columns of each row in another order, and rows which are skipped
    for (int order = 0; order < 3; ++order) { for (int skip = 0; skip < 2; ++skip) {
        SparseMatrixX<S> q(p.rows, p.cols);
        auto in = compressed_inserter(q, nnz + order);
        for (int i = 0; i < p.rows; ++i) {
            std::vector<std::pair<int, S>> row;
            for (int j = 0; j < p.cols; ++j) { int k = 0; for (auto& a : p.at) { if (a.first == i && a.second == j) { row.emplace_back(j, value<S>(k)); } ++k; } }
            if (skip) { if (row.empty()) { continue; } in.start_row(i); } else { in.start_row(); }
            if (order == 1) { std::reverse(row.begin(), row.end()); }
            if (order == 2 && row.size() > 1) { std::rotate(row.begin(), row.begin() + static_cast<long>(row.size() / 2), row.end()); }
            for (auto& x : row) { in.insert(x.first, x.second); }
        }
        in.compress();
        bool sorted = true;
        for (int i = 0; i < p.rows; ++i) { for (auto n = q.outerIndexPtr()[i]; n + 1 < q.outerIndexPtr()[i + 1]; ++n) { sorted &= q.innerIndexPtr()[n] < q.innerIndexPtr()[n + 1]; } }
        ok &= w.check(sorted && q.nonZeros() == nnz && q.outerIndexPtr()[0] == 0, "inserter", [&] { return str("the inserted matrix is not in order (order ", order, skip ? ", rows skipped" : "", ")"); });
        if (sorted && q.nonZeros() == nnz) { ok &= same(w, "compressed_inserter", wide_matrix(MatrixX<S>(q)), d, str("order ", order, skip ? ", rows skipped" : "")); }
    } }
    w.count("conversions");
    return ok;
}

// ------------------------------------------------------------------------------------------------ products

template<class S> VectorX<S> vector(int n, int seed) { VectorX<S> v(n); for (int i = 0; i < n; ++i) { v[i] = value<S>(seed + 3 * i); } return v; }
template<class S> MatrixX<S> batch(int n, int cols, int seed) { MatrixX<S> v(n, cols); for (int i = 0; i < n; ++i) { for (int j = 0; j < cols; ++j) { v(i, j) = value<S>(seed + 3 * i + 5 * j); } } return v; }

template<class S, class M> bool products(pbv::Worker& w, M const& m, MatrixXcd const& d, char const* format, std::vector<std::pair<int, int>> const& ranges) {
    auto const n = static_cast<int>(d.rows());
    static constexpr auto width = static_cast<int>(simd::traits<S>::size);
    auto const x = vector<S>(n, 1), y0 = vector<S>(n, 40);
    auto const X = batch<S>(n, width, 2), Y0 = batch<S>(n, width, 50);
    MatrixXcd const wx = wide_matrix(x), wy = wide_matrix(y0), WX = wide_matrix(X), WY = wide_matrix(Y0);
    MatrixXcd const full = d * wx - wy, FULL = d * WX - WY;
    bool ok = true;
    for (auto& r : ranges) {
        auto const s = r.first, t = r.second, k = t - s;
        auto const at = str(format, " ", Name<S>::get(), " rows ", s, " to ", t);
        w.note(at);
        MatrixXcd want = wy, WANT = WY; want.middleRows(s, k) = full.middleRows(s, k); WANT.middleRows(s, k) = FULL.middleRows(s, k);
        { auto y = y0; compute::kpm_spmv(s, t, m, x, y); ok &= same(w, "kpm_spmv", wide_matrix(y), want, at); }
        { auto y = Y0; compute::kpm_spmv(s, t, m, X, y); ok &= same(w, "kpm_spmv batch", wide_matrix(y), WANT, at); }
        {
            auto y = y0; S m2 = value<S>(7), m3 = value<S>(8);
            compute::kpm_spmv_diagonal(s, t, m, x, y, m2, m3);
            ok &= same(w, "kpm_spmv_diagonal", wide_matrix(y), want, at);
            cd const w2 = cd(value<S>(7)) + wx.middleRows(s, k).squaredNorm(), w3 = cd(value<S>(8)) + (want.middleRows(s, k).adjoint() * wx.middleRows(s, k)).sum();
            ok &= w.check(std::abs(cd(m2) - w2) < 1e-3 && std::abs(cd(m3) - w3) < 1e-3, "dot products", [&] { return str("dot products ", at, ": ", cd(m2), " ", cd(m3), ", expected ", w2, " ", w3); });
        }
        {
            auto y = Y0; simd::array<S> m2, m3;
            for (int i = 0; i < width; ++i) { m2[static_cast<size_t>(i)] = value<S>(7 + i); m3[static_cast<size_t>(i)] = value<S>(19 + i); }
            compute::kpm_spmv_diagonal(s, t, m, X, y, m2, m3);
            ok &= same(w, "kpm_spmv_diagonal batch", wide_matrix(y), WANT, at);
            for (int i = 0; i < width; ++i) {
                cd const w2 = cd(value<S>(7 + i)) + WX.col(i).segment(s, k).squaredNorm(), w3 = cd(value<S>(19 + i)) + (k ? WANT.col(i).segment(s, k).dot(WX.col(i).segment(s, k)) : cd(0));
                auto const g2 = cd(m2[static_cast<size_t>(i)]), g3 = cd(m3[static_cast<size_t>(i)]);
                ok &= w.check(std::abs(g2 - w2) < 1e-3 && std::abs(g3 - w3) < 1e-3, "dot products batch", [&] { return str("dot products of column ", i, " ", at, ": ", g2, " ", g3, ", expected ", w2, " ", w3); });
            }
        }
        w.count("products", 4);
        if (!ok) { return false; }
    }
    MatrixXcd const half = d * wx * 0.5, HALF = d * WX * 0.5;
    ok &= same(w, "make_r1", wide_matrix(kpm::make_r1(m, x)), half, str(format, " ", Name<S>::get()));
    ok &= same(w, "make_r1 batch", wide_matrix(kpm::make_r1(m, X)), HALF, str(format, " ", Name<S>::get()));
    return ok;
}

template<class S> void square(pbv::Worker& w, Pattern const& p, std::vector<std::pair<int, int>> const& ranges) {
    w.distinct(pbv::hash(p.name + Name<S>::get()));
    if (!conversions<S>(w, p) || p.rows == 0) { return; }   // there is no empty Hamiltonian
    auto const m = sparse<S>(p);
    auto const d = dense<S>(p);
    if (!products<S>(w, m, d, "CSR", ranges)) { return; }
    products<S>(w, num::csr_to_ell(m), d, "ELLPACK", ranges);
}
std::vector<std::pair<int, int>> all_ranges(int n) { std::vector<std::pair<int, int>> r; for (int s = 0; s <= n; ++s) { for (int t = s; t <= n; ++t) { r.emplace_back(s, t); } } return r; }

// ------------------------------------------------------------------------------------------------ arrays

template<class S> struct CheckView {
    pbv::Worker& w; std::vector<cd> const& want; std::string at;
    template<class A> bool operator()(A a) const {
        using T = typename std::decay<decltype(a(0))>::type;
        bool ok = w.check(std::is_same<T, S>::value, "match", [&] { return at + ": wrong type"; });
        ok &= w.check(static_cast<size_t>(a.size()) == want.size(), "match", [&] { return str(at, ": ", a.size(), " elements instead of ", want.size()); });
        if (ok) { for (idx_t i = 0; i < a.size(); ++i) { ok &= w.check(cd(a(i)) == want[static_cast<size_t>(i)], "match", [&] { return str(at, ": element ", i, " is ", a(i)); }); } }
        return ok;
    }
};
template<class S> struct CheckView2 {
    pbv::Worker& w; MatrixXcd const& want; std::string at;
    template<class A> bool operator()(A a) const {
        using T = typename std::decay<decltype(a(0, 0))>::type;
        bool ok = w.check(std::is_same<T, S>::value && a.rows() == want.rows() && a.cols() == want.cols(), "match", [&] { return str(at, ": wrong type or size"); });
        if (ok) { for (idx_t i = 0; i < a.rows(); ++i) { for (idx_t j = 0; j < a.cols(); ++j) { ok &= w.check(cd(a(i, j)) == want(i, j), "match", [&] { return str(at, ": element ", i, ",", j, " is ", a(i, j)); }); } } }
        return ok;
    }
};
struct Double { template<class A> void operator()(A a) const { for (idx_t i = 0; i < a.size(); ++i) { a(i) = a(i) + a(i); } } };
template<class A, class B> struct Pair { pbv::Worker& w; template<class X, class Y> int operator()(X x, Y y) const {
    using S = typename std::decay<decltype(x(0))>::type; using T = typename std::decay<decltype(y(0))>::type;
    w.check(std::is_same<S, A>::value && std::is_same<T, B>::value, "match2", [&] { return std::string("match2 picks a wrong combination of types"); });
    return static_cast<int>(x.size() * 100 + y.size()); } };
template<class F> std::string thrown(F f) { try { f(); } catch (std::exception const& e) { return e.what(); } catch (...) { return "another exception"; } return ""; }

template<class V, class A> bool shape_is(V const& v, A tag, int ndim, bool row_major, idx_t x, idx_t y, idx_t z = 0) {
    return v.tag == tag && v.ndim == ndim && (ndim == 1 || v.is_row_major == row_major) && v.shape[0] == x && (ndim < 2 || v.shape[1] == y) && (ndim < 3 || v.shape[2] == z) && v.size() == x * (ndim > 1 ? y : 1) * (ndim > 2 ? z : 1);
}
template<class S> void views(pbv::Worker& w, int n) {
    auto const t = Name<S>::tag;
    std::vector<cd> want; for (int i = 0; i < n; ++i) { want.push_back(cd(value<S>(i + 2))); }
    auto const fill = [&](auto& a) { for (int i = 0; i < n; ++i) { a[i] = value<S>(i + 2); } };
    auto const one = [&](ArrayConstRef r, char const* what) {
        w.check(shape_is(r, t, 1, true, n, 0), "view", [&] { return str(what, " ", Name<S>::get(), "[", n, "]: the shape of the view is wrong (", int(r.ndim), " dimensions: ", r.shape[0], " ", r.shape[1], " ", r.shape[2], ")"); });
        num::match<ArrayX>(ComplexArrayConstRef(r), CheckView<S>{w, want, what});
        num::match<VectorX>(ComplexArrayConstRef(r), CheckView<S>{w, want, what});
        auto const real = !num::is_complex<S>();
        auto const e = thrown([&] { RealArrayConstRef x(r); num::match<ArrayX>(x, CheckView<S>{w, want, what}); });
        w.check(e.empty() == real, "view type", [&] { return str(what, ": as a real array: ", e); });
    };
    auto const change = [&](ArrayRef r, std::function<cd(int)> at, char const* what) {
        num::match<ArrayX>(ComplexArrayRef(r), Double{});
        for (int i = 0; i < n; ++i) { if (!w.check(at(i) == want[static_cast<size_t>(i)] * 2.0, "mutable view", [&] { return str(what, ": writing through the view does not change element ", i); })) { return; } }
    };
    { ArrayX<S> a(n); fill(a); auto const& c = a; one(arrayref(c), "const array"); one(arrayref(a), "array"); change(arrayref(a), [&](int i) { return cd(a[i]); }, "array"); }
    { VectorX<S> a(n); fill(a); auto const& c = a; one(arrayref(c), "const vector"); one(arrayref(a), "vector"); change(arrayref(a), [&](int i) { return cd(a[i]); }, "vector"); }
    { Eigen::Matrix<S, 1, Eigen::Dynamic> a(n); fill(a); auto const& c = a; one(arrayref(c), "const row vector"); one(arrayref(a), "row vector"); }
    { std::vector<S> a(static_cast<size_t>(n)); fill(a); auto const& c = a; one(arrayref(a), "std::vector"); change(arrayref(a), [&](int i) { return cd(a[static_cast<size_t>(i)]); }, "std::vector"); fill(a); one(arrayref(a.data(), n), "pointer");
      Eigen::Map<ArrayX<S>> map(a.data(), n); for (int i = 0; i < n; ++i) { a[static_cast<size_t>(i)] = value<S>(i + 2); } one(arrayref(map), "map");
      auto const ec = eigen_cast<ArrayX>(c); w.check(ec.size() == n, "eigen_cast", [&] { return std::string("eigen_cast: wrong size"); }); for (int i = 0; i < n; ++i) { w.check(cd(ec[i]) == want[static_cast<size_t>(i)], "eigen_cast", [&] { return std::string("eigen_cast: wrong element"); }); } }
    for (int c = 0; c <= 3; ++c) {
        MatrixXcd wm(n, c); for (int i = 0; i < n; ++i) { for (int j = 0; j < c; ++j) { wm(i, j) = cd(value<S>(i * 4 + j)); } }
        auto const two = [&](auto make, bool rm, char const* what) {
            auto a = make; a.resize(n, c); for (int i = 0; i < n; ++i) { for (int j = 0; j < c; ++j) { a(i, j) = value<S>(i * 4 + j); } }
            auto const& k = a; auto const r = arrayref(k);
            w.check(shape_is(r, t, 2, rm, n, c), "view", [&] { return str(what, ": the shape of the view is wrong"); });
            auto const m = arrayref(a);
            w.check(shape_is(m, t, 2, rm, n, c), "view", [&] { return str(what, ": the shape of the mutable view is wrong"); });
            if (rm) { num::match<ArrayXX>(ComplexArrayConstRef(r), CheckView2<S>{w, wm, what}); num::match<MatrixX>(ComplexArrayRef(m), CheckView2<S>{w, wm, what}); }
            else { num::match<ColMajorArrayXX>(ComplexArrayConstRef(r), CheckView2<S>{w, wm, what}); num::match<ColMajorArrayXX>(ComplexArrayRef(m), CheckView2<S>{w, wm, what}); }
        };
        two(ArrayXX<S>(), true, "2D array"); two(MatrixX<S>(), true, "matrix"); two(ColMajorArrayXX<S>(), false, "column major array"); two(ColMajorMatrixX<S>(), false, "column major matrix");
    }
    S data[24];
    w.check(shape_is(arrayref(data, n, 2), t, 2, true, n, 2) && shape_is(arrayref(data, 2, 3, n), t, 3, true, 2, 3, n), "view", [&] { return std::string("2D or 3D view of a pointer: wrong shape"); });
    w.count("views");
}
template<class A, class B> void pairs(pbv::Worker& w) {
    for (int n = 0; n <= 3; ++n) { for (int m = 0; m <= 3; ++m) {
        VectorX<A> a = vector<A>(n, 1); VectorX<B> b = vector<B>(m, 2);
        auto const ra = ComplexArrayConstRef(arrayref(a)); auto const rb = ComplexArrayConstRef(arrayref(b));
        int got = -1;
        auto const e = thrown([&] { got = num::match2<ArrayX, ArrayX>(ra, rb, Pair<A, B>{w}); });
        w.check(e.empty() && got == n * 100 + m, "match2", [&] { return str("match2 of ", Name<A>::get(), " and ", Name<B>::get(), ": ", e); });
        got = -1;
        auto const e2 = thrown([&] { got = num::match2sp<ArrayX, ArrayX>(ra, rb, Pair<A, B>{w}); });
        auto const ok = std::is_same<num::get_real_t<A>, num::get_real_t<B>>::value;
        w.check(ok ? e2.empty() && got == n * 100 + m : !e2.empty(), "match2sp", [&] { return str("match2sp of ", Name<A>::get(), " and ", Name<B>::get(), ": ", e2); });
    } }
}
template<class T> void tag(pbv::Worker& w, num::Tag want) {
    T x{}; T* p = &x;
    ArrayConstRef const r = arrayref(p, 1);
    w.check(r.tag == want && r.size() == 1 && r.data == p, "tag", [&] { return std::string("wrong type tag of an array view"); });
    auto const real = want == num::Tag::f32 || want == num::Tag::f64, any = real || want == num::Tag::cf32 || want == num::Tag::cf64;
    w.check(thrown([&] { RealArrayConstRef v(r); (void)v; }).empty() == real, "variant", [&] { return std::string("a real array view accepts or rejects a wrong type"); });
    w.check(thrown([&] { ComplexArrayConstRef v(r); (void)v; }).empty() == any, "variant", [&] { return std::string("a complex array view accepts or rejects a wrong type"); });
    w.check(thrown([&] { RealArrayRef v(arrayref(&x, 1)); (void)v; }).empty() == real, "variant", [&] { return std::string("a mutable real array view accepts or rejects a wrong type"); });
    w.check(thrown([&] { ComplexArrayRef v(arrayref(&x, 1)); (void)v; }).empty() == any, "variant", [&] { return std::string("a mutable complex array view accepts or rejects a wrong type"); });
}

void slices(pbv::Worker& w, int n) {
    for (int bits = 0; bits < (1 << n); ++bits) {
        ArrayXf v(n); std::vector<int> u(static_cast<size_t>(n)); ArrayX<bool> keep(n); std::vector<bool> keep2(static_cast<size_t>(n)); std::vector<int> want;
        for (int i = 0; i < n; ++i) { v[i] = static_cast<float>(i + 1); u[static_cast<size_t>(i)] = i + 1; keep[i] = (bits >> i) & 1; keep2[static_cast<size_t>(i)] = keep[i]; if (keep[i]) { want.push_back(i + 1); } }
        auto const r = slice(v, keep); auto const r2 = slice(u, keep2);
        bool ok = r.size() == static_cast<idx_t>(want.size()) && r2 == want;
        for (size_t i = 0; ok && i < want.size(); ++i) { ok = r[static_cast<idx_t>(i)] == static_cast<float>(want[i]); }
        w.check(ok, "slice", [&] { return str("slice of ", n, " elements by mask ", bits, " is wrong"); });
        w.count("slices");
    }
    for (int m = 0; m <= n + 1; ++m) {
        ArrayXf a(n), b(m); for (int i = 0; i < n; ++i) { a[i] = static_cast<float>(i + 1); } for (int i = 0; i < m; ++i) { b[i] = static_cast<float>(100 + i); }
        auto const check = [&](ArrayXf const& r, int first, int n1, int m1) { bool ok = r.size() == n1 + m1; for (int i = 0; ok && i < n1 + m1; ++i) { ok = r[i] == (i < n1 ? a[first + i] : b[i - n1]); } return ok; };
        w.check(check(concat(a, b), 0, n, m), "concat", [&] { return str("concat of ", n, " and ", m, " elements is wrong"); });
        for (int first = 0; first <= n; ++first) { using R = Eigen::Ref<ArrayXf const>; w.check(check(concat<ArrayXf>(R(a.segment(first, n - first)), R(b)), first, n - first, m), "concat", [&] { return str("concat of a part is wrong"); }); }
        CartesianArray p(n), q(m); for (int i = 0; i < n; ++i) { p[i] = Cartesian(float(i), float(10 * i), float(i + 3)); } for (int i = 0; i < m; ++i) { q[i] = Cartesian(float(-i), float(7 * i), float(i + 9)); }
        auto const pq = concat(p, q);
        bool ok = pq.size() == n + m;
        for (int i = 0; ok && i < n + m; ++i) { CartesianArray const& c = pq; Cartesian const want = i < n ? static_cast<CartesianArray const&>(p)[i] : static_cast<CartesianArray const&>(q)[i - n]; ok = c[i] == want; }
        w.check(ok, "concat", [&] { return str("concat of ", n, " and ", m, " positions is wrong"); });
        for (int s = 0; s <= n; ++s) { for (int k = 0; s + k <= n; ++k) {
            CartesianArray const& c = p; auto const g = c.segment(s, k); auto const h = c.head(k);
            bool good = g.size() == k && h.size() == k;
            for (int i = 0; good && i < k; ++i) { good = g.x()[i] == c[s + i].x() && g.y()[i] == c[s + i].y() && g.z()[i] == c[s + i].z() && h.x()[i] == c[i].x() && h.y()[i] == c[i].y() && h.z()[i] == c[i].z(); }
            auto copy = p; auto mut = copy.segment(s, k); mut.x().setConstant(-1); mut.z().setConstant(-3);
            for (int i = 0; good && i < n; ++i) { auto const in = i >= s && i < s + k; good = copy.x[i] == (in ? -1 : p.x[i]) && copy.y[i] == p.y[i] && copy.z[i] == (in ? -3 : p.z[i]); }
            w.check(good, "segment", [&] { return str("positions ", s, " to ", s + k, " of ", n, " are wrong"); });
        } }
        if (m != n) { w.check(!thrown([&] { CartesianArray bad{ArrayXf(n), ArrayXf(m), ArrayXf(n)}; }).empty() && !thrown([&] { CartesianArray bad{ArrayXf(n), ArrayXf(n), ArrayXf(m)}; }).empty(), "positions", [&] { return std::string("positions of different lengths are accepted"); }); }
    }
    for (int size = 1; size <= n + 2; ++size) {
        std::vector<int> v(static_cast<size_t>(n)), all; for (int i = 0; i < n; ++i) { v[static_cast<size_t>(i)] = i; }
        bool ok = true; int parts = 0;
        for (auto const& part : sliced(v, size)) {
            auto const k = part.end() - part.begin();
            ++parts; all.insert(all.end(), part.begin(), part.end());
            ok &= k > 0 && k <= size && (k == size || all.size() == v.size());
            if (parts > n + 2) { break; }
        }
        w.check(ok && all == v && parts == (n + size - 1) / size, "sliced", [&] { return str(n, " elements in parts of ", size, " are wrong"); });
    }
}
template<class S> void alignment(pbv::Worker& w, int n) {
    auto const one = [&](int got, int bytes) { auto const step = bytes / static_cast<int>(sizeof(S)); w.check(got >= n && got < n + step && got % step == 0, "aligned_size", [&] { return str("aligned size of ", n, " ", Name<S>::get(), " for ", bytes, " bytes is ", got); }); };
    one(num::aligned_size<S, 16>(n), 16); one(num::aligned_size<S, 32>(n), 32);
    if (n > 40) { return; }
    alignas(64) static S data[64];
    static constexpr auto step = static_cast<idx_t>(simd::traits<S>::size);
    for (int shift = 0; shift < 8; ++shift) { for (int s = 0; s <= n; ++s) {
        auto const l = simd::split_loop(data + shift, s, n);
        bool ok = l.start == s && l.end == n && l.start <= l.peel_end && l.peel_end <= l.vec_end && l.vec_end <= l.end && (l.vec_end - l.peel_end) % step == 0 && l.end - l.vec_end < step;
        if (l.vec_end > l.peel_end) { ok &= reinterpret_cast<std::uintptr_t>(data + shift + l.peel_end) % simd::traits<S>::align_bytes == 0; }
        w.check(ok, "split_loop", [&] { return str("split_loop of ", Name<S>::get(), " from ", s, " to ", n, " shifted by ", shift, ": ", l.start, " ", l.peel_end, " ", l.vec_end, " ", l.end); });
    } }
}
template<class S> void random(pbv::Worker& w, int n) {
    // a fresh generator, the same sequence in pieces of any size, all in [0, 1)
    std::mt19937 g; auto const v = num::make_random<ArrayX<S>>(n, g);
    auto const v2 = num::make_random<VectorX<S>>(n);
    bool ok = v.size() == n && v2.size() == n;
    for (int i = 0; ok && i < n; ++i) { ok = v[i] >= 0 && v[i] < 1 && v[i] == v2[i]; }
    w.check(ok, "random", [&] { return str(n, " random ", Name<S>::get(), " values are wrong"); });
    for (int k = 0; k <= n; ++k) {
        std::mt19937 h; auto const a = num::make_random<ArrayX<S>>(k, h); auto const b = num::make_random<ArrayX<S>>(n - k, h);
        bool good = true; for (int i = 0; i < n; ++i) { good &= v[i] == (i < k ? a[i] : b[i - k]); }
        w.check(good && h == g, "random", [&] { return str("random ", Name<S>::get(), " values in two parts (", k, " of ", n, ") differ"); });
    }
}
template<class S> void casts(pbv::Worker& w, int n) {
    MatrixXcd m(n, n + 1); for (int i = 0; i < n; ++i) { for (int j = 0; j <= n; ++j) { m(i, j) = cd(0.1 + i, 0.3 - j); } }
    auto const want = [&](cd v) { return num::is_complex<S>() ? std::is_same<S, cd>::value ? v : cd(std::complex<float>(v)) : std::is_same<S, double>::value ? cd(v.real()) : cd(static_cast<float>(v.real())); };
    MatrixXcd wm = m.unaryExpr(want);
    same(w, "force_cast", wide_matrix(num::force_cast<S>(m)), wm, Name<S>::get());
    VectorXcd const v = n ? VectorXcd(m.col(0)) : VectorXcd(0); same(w, "force_cast", wide_matrix(num::force_cast<S>(v)), VectorXcd(v.unaryExpr(want)), Name<S>::get());
    SparseMatrixXcd const s = m.sparseView(); same(w, "force_cast", wide_matrix(MatrixX<S>(num::force_cast<S>(s))), wm, Name<S>::get());
    for (int i = 0; i < m.size(); ++i) { w.check(cd(num::force_cast<S>(m.data()[i])) == want(m.data()[i]), "force_cast", [&] { return std::string("wrong value"); }); auto const c = num::force_cast<S>(m.data()[i]); w.check(cd(num::conjugate(c)) == std::conj(cd(c)), "conjugate", [&] { return std::string("wrong conjugate"); }); }
}

} // namespace

int main(int argc, char** argv) {
    pbv::Info info;
    info.rule = "a case is one sparsity pattern (all formats, element types and row ranges), or one size of the dense primitives; distinct: different patterns and types";
    info.states = "distinct"; info.transitions = "checks"; info.traces = "products";
    info.assumptions = {"values are small dyadic numbers, so that products are compared exactly; fused dot products within 1e-3",
                        "the vectorized code runs with the SSE2 subset of the SIMD library which is replaced by a stand-in (the library itself is not installed); the generic code is checked as well"};
    return pbv::run(argc, argv, "C16", info, [](pbv::Worker& w) {
        bool const deep = w.ctx.thorough();
        auto const all = [&](Pattern const& p, std::vector<std::pair<int, int>> const& ranges) {
            if (w.next([&] { return p.name; })) { square<float>(w, p, ranges); square<double>(w, p, ranges); square<std::complex<float>>(w, p, ranges); square<cd>(w, p, ranges); }
        };
        // every sparsity pattern of small matrices
        for (int n = 0; n <= 3; ++n) {
            for (int bits = 0; bits < (1 << (n * n)); ++bits) {
                Pattern p{n, n, {}, str("pattern ", bits, " of ", n, "x", n)};
                for (int k = 0; k < n * n; ++k) { if ((bits >> k) & 1) { p.at.emplace_back(k / n, k % n); } }
                all(p, all_ranges(n));
            }
        }
        if (deep) {
            for (int bits = 0; bits < (1 << 16); ++bits) {
                Pattern p{4, 4, {}, str("pattern ", bits, " of 4x4")};
                for (int k = 0; k < 16; ++k) { if ((bits >> k) & 1) { p.at.emplace_back(k / 4, k % 4); } }
                all(p, all_ranges(4));
            }
        }
        for (int r = 1; r <= 4; ++r) { for (int c = 1; c <= 4; ++c) {
            if (r == c || r * c > (deep ? 12 : 8)) { continue; }
            for (int bits = 0; bits < (1 << (r * c)); ++bits) {
                if (w.next([&] { return str("pattern ", bits, " of ", r, "x", c); })) {
                    Pattern p{r, c, {}, str("pattern ", bits, " of ", r, "x", c)};
                    for (int k = 0; k < r * c; ++k) { if ((bits >> k) & 1) { p.at.emplace_back(k / c, k % c); } }
                    conversions<float>(w, p); conversions<double>(w, p); conversions<std::complex<float>>(w, p); conversions<cd>(w, p);
                }
            }
        } }
        // longer ones, for the vectorized loops: all row ranges
        for (int n = 4; n <= (deep ? 40 : 21); ++n) {
            for (int kind = 0; kind < 10; ++kind) {
                static char const* const names[] = {"diagonal", "tridiagonal", "cyclic shift", "arrow", "full", "last row only", "first row only", "no even rows", "pairs", "empty"};
                Pattern p{n, n, {}, str(names[kind], " ", n, "x", n)};
                for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) {
                    bool const in[] = {i == j, std::abs(i - j) <= 1, j == (i + 3) % n || j == (i + n - 3) % n, i == 0 || j == 0 || i == j, true, i == n - 1, i == 0, i % 2 == 1 && (i + j) % 3 == 0, i / 2 == j / 2, false};
                    if (in[kind]) { p.at.emplace_back(i, j); }
                } }
                all(p, all_ranges(n));
            }
        }
        // dense primitives
        for (int n = 0; n <= (deep ? 13 : 10); ++n) { if (w.next([&] { return str("slices and concatenations of ", n); })) { w.distinct(pbv::hash(w.current)); slices(w, n); } }
        for (int n = 0; n <= 130; ++n) { if (w.next([&] { return str("alignment of ", n); })) { w.distinct(pbv::hash(w.current)); alignment<float>(w, n); alignment<double>(w, n); alignment<std::complex<float>>(w, n); alignment<cd>(w, n); } }
        for (int n = 0; n <= 20; ++n) { if (w.next([&] { return str("views of ", n); })) { w.distinct(pbv::hash(w.current)); views<float>(w, n); views<double>(w, n); views<std::complex<float>>(w, n); views<cd>(w, n); random<float>(w, n); random<double>(w, n); casts<float>(w, n); casts<double>(w, n); casts<std::complex<float>>(w, n); casts<cd>(w, n); } }
        if (w.next([&] { return std::string("types of views"); })) {
            using cf = std::complex<float>;
            pairs<float, float>(w); pairs<float, double>(w); pairs<float, cf>(w); pairs<float, cd>(w);
            pairs<double, float>(w); pairs<double, double>(w); pairs<double, cf>(w); pairs<double, cd>(w);
            pairs<cf, float>(w); pairs<cf, double>(w); pairs<cf, cf>(w); pairs<cf, cd>(w);
            pairs<cd, float>(w); pairs<cd, double>(w); pairs<cd, cf>(w); pairs<cd, cd>(w);
            using num::Tag;
            tag<float>(w, Tag::f32); tag<double>(w, Tag::f64); tag<cf>(w, Tag::cf32); tag<cd>(w, Tag::cf64); tag<bool>(w, Tag::b);
            tag<std::int8_t>(w, Tag::i8); tag<std::int16_t>(w, Tag::i16); tag<std::int32_t>(w, Tag::i32); tag<std::int64_t>(w, Tag::i64);
            tag<std::uint8_t>(w, Tag::u8); tag<std::uint16_t>(w, Tag::u16); tag<std::uint32_t>(w, Tag::u32); tag<std::uint64_t>(w, Tag::u64);
            tag<long long>(w, Tag::i64); tag<unsigned long long>(w, Tag::u64);
        }
    });
}
