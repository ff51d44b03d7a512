// linear algebra: sparse matrices, tensors, dense products
#include "common.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/Buffer.h"
#include "eckit/linalg/LinearAlgebraDense.h"
#include "eckit/linalg/LinearAlgebraSparse.h"
#include "eckit/linalg/Matrix.h"
#include "eckit/linalg/SparseMatrix.h"
#include "eckit/linalg/Tensor.h"
#include "eckit/linalg/Triplet.h"
#include "eckit/linalg/Vector.h"
#include "eckit/linalg/allocator/StandardContainerAllocator.h"
#include "eckit/memory/MemoryBuffer.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "main_init.h"
#include "vtree.h"
using namespace eckit::linalg;

static const std::string OK = "[\"ok\",0]", EXC = "[\"exc\"]";
static std::string okv(const std::string& s) { return "[\"ok\"," + s + "]"; }
static std::string num(double d) { return d == double((long)d) ? jnum((long)d) : "-888888888"; }
static std::string list(const double* b, size_t n) {
    std::string r = "[";
    for (size_t i = 0; i < n; i++) r += (i ? "," : "") + num(b[i]);
    return r + "]";
}
static std::string rows(const Matrix& m) {
    std::string r = "[";
    for (size_t i = 0; i < m.rows(); i++) {
        r += (i ? ",[" : "[");
        for (size_t j = 0; j < m.cols(); j++) r += (j ? "," : "") + num(m(i, j));
        r += "]";
    }
    return r + "]";
}
static Vector vec(const T& t) {
    Vector v(t.a.size());
    for (size_t i = 0; i < t.a.size(); i++) v[i] = t.a[i].n;
    if (turn++ % 3) return v;
    eckit::Buffer b(64 + 16 * t.a.size());
    eckit::ResizableMemoryStream o(b);
    o << v;
    eckit::MemoryStream in(b);
    if (t.a.empty()) return v;
    Vector w(in), x(1);
    x = w;
    return x;
}
static Matrix mat(const T& t, long cols) {
    Matrix m(t.a.size(), cols);
    for (size_t i = 0; i < t.a.size(); i++)
        for (long j = 0; j < cols; j++) m(i, j) = t.a[i].a[j].n;
    if (turn++ % 3) return m;
    eckit::Buffer b(64 + 16 * m.size());
    eckit::ResizableMemoryStream o(b);
    o << m;
    eckit::MemoryStream in(b);
    Matrix w(in), x;
    x = w;
    return x;
}

struct Lin {
    std::vector<SparseMatrix> m;
    std::vector<std::unique_ptr<eckit::MemoryBuffer>> b;
    std::vector<size_t> n;
    std::vector<std::unique_ptr<eckit::MemoryBuffer>> old;
    const LinearAlgebraSparse& la() {
        const char* names[] = {"generic", "openmp"};
        const char* k       = names[turn++ % 2];
        return LinearAlgebraSparse::hasBackend(k) ? LinearAlgebraSparse::getBackend(k) : LinearAlgebraSparse::backend();
    }
    std::string show(SparseMatrix& s) {
        std::string e, f, g, txt;
        size_t k = 0;
        if (s.empty()) {
            if (s.begin() != s.end() || bool(s.begin())) return "[\"bad\",\"iterempty\"]";
        }
        for (size_t r = 0; r < s.rows() && !s.empty(); r++)
            for (auto i = s.outerIndex()[r]; i < s.outerIndex()[r + 1]; i++) {
                if (i != k || s.outer()[r] != long(s.outerIndex()[r])) return "[\"bad\",\"outer\"]";
                e += (k++ ? ",[" : "[") + jnum(r) + "," + jnum(s.inner()[i]) + "," + num(s.data()[i]) + "]";
            }
        if (k != s.nonZeros() || s.empty() != (k == 0)) return "[\"bad\",\"nnz\"]";
        k = 0;
        const SparseMatrix& cs = s;
        if (!s.empty()) {
            for (auto i = cs.begin(); i != cs.end() && k <= s.nonZeros(); turn++ % 2 ? ++i : (void(i++), i)) {
                if (!bool(i)) return "[\"bad\",\"iterbool\"]";
                f += (k++ ? ",[" : "[") + jnum(i.row()) + "," + jnum(i.col()) + "," + num(*i) + "]";
            }
            if (f != e) return "[\"bad\"," + jstr("iter " + f) + "]";
            k = 0;
            for (size_t r = 0; r < s.rows(); r++)
                for (auto i = s.begin(r); i != s.end(r) && k <= s.nonZeros(); ++i) g += (k++ ? ",[" : "[") + jnum(i.row()) + "," + jnum(i.col()) + "," + num(*i) + "]";
            if (g != e) return "[\"bad\"," + jstr("rows " + g) + "]";
        }
        return okv("[" + jnum(s.rows()) + "," + jnum(s.cols()) + ",[" + e + "]]");
    }
    std::string op(const Op& o) {
        const std::string& n_ = o.name;
        auto M = [&](int i) -> SparseMatrix& { return m.at(o.i(i) - 1); };
        if (n_ == "mk") {
            T t = parse(o.s(3));
            std::vector<Triplet> ts;
            for (auto& x : t.a) ts.emplace_back(x.a[0].n, x.a[1].n, double(x.a[2].n));
            if (turn % 2) M(0) = SparseMatrix(o.i(1), o.i(2), ts);
            else { SparseMatrix s(o.i(1), o.i(2), ts); M(0).swap(s); }
            return OK;
        }
        if (n_ == "own") {
            T t = parse(o.s(3));
            std::vector<std::map<Size, Scalar>> c(o.i(1));
            for (auto& x : t.a) c.at(x.a[0].n)[x.a[1].n] = double(x.a[2].n);
            M(0) = SparseMatrix(new allocator::StandardContainerAllocator(o.i(1), o.i(2), c));
            return OK;
        }
        if (n_ == "ident") { M(0).setIdentity(o.i(1), o.i(2)); return OK; }
        if (n_ == "cp") {
            if (turn % 2) M(0) = M(1);
            else { SparseMatrix c(M(1)); M(0) = std::move(c); }
            return OK;
        }
        if (n_ == "mv") {
            if (o.i(0) == o.i(1)) return OK;
            SparseMatrix t(std::move(M(1)));
            M(0) = std::move(t);
            return OK;
        }
        if (n_ == "swap") { M(0).swap(M(1)); return OK; }
        if (n_ == "tr") { M(0).transpose(); return OK; }
        if (n_ == "prune") { if (o.i(1) == 0 && turn % 2) M(0).prune(); else M(0).prune(o.i(1)); return OK; }
        if (n_ == "red") {
            std::vector<size_t> p;
            for (auto& x : parse(o.s(2)).a) p.push_back(x.n);
            M(0) = M(1).rowReduction(p);
            return OK;
        }
        if (n_ == "file" || n_ == "strm" || n_ == "dump") {
            if (M(1).empty()) return OK;
        }
        if (n_ == "file") {
            eckit::PathName f(scratch() + "/m");
            M(1).save(f);
            M(0).load(f);
            return OK;
        }
        if (n_ == "strm") {
            eckit::Buffer buf(10000);
            eckit::ResizableMemoryStream w(buf);
            w << M(1);
            eckit::MemoryStream r(buf);
            M(0) = SparseMatrix(r);
            return OK;
        }
        if (n_ == "dump") {
            SparseMatrix& s = M(1);
            size_t need = 48 + s.nonZeros() * (sizeof(Scalar) + sizeof(Index)) + (s.rows() + 1) * sizeof(Index);
            auto x = std::make_unique<eckit::MemoryBuffer>(need + o.i(2));
            if (turn % 2) s.dump(*x); else s.dump(x->data(), x->size());
            size_t j = o.i(0) - 1;
            if (b[j]) old.push_back(std::move(b[j]));
            b[j] = std::move(x);
            n[j] = need;
            return OK;
        }
        if (n_ == "load") {
            auto& x = b.at(o.i(1) - 1);
            if (x) M(0) = SparseMatrix(*x);
            return OK;
        }
        if (n_ == "cut") {
            size_t j = o.i(0) - 1;
            if (!b.at(j)) return OK;
            size_t c = n[j] - 1 - std::min<size_t>(n[j] - 1, o.i(1));
            // a copy that ends there, unreadable beyond
            std::vector<char> part((char*)b[j]->data(), (char*)b[j]->data() + c);
            SparseMatrix::Layout l;
            SparseMatrix::Shape s;
            SparseMatrix::load(part.data(), c, l, s);
            return OK;
        }
        if (n_ == "set") {
            M(0) = SparseMatrix(M(0));
            if (o.i(1) > long(M(0).nonZeros())) return OK;
            auto it = M(0).begin();
            for (long k = 1; k < o.i(1); k++) ++it;
            *it = double(o.i(2));
            return OK;
        }
        if (n_ == "cols") { if (!M(0).empty()) M(0).cols(M(0).cols() + o.i(1)); return OK; }
        if (n_ == "show") return show(M(0));
        if (n_ == "spmv") {
            Vector x = vec(parse(o.s(1))), y(M(0).rows());
            y.fill(77);
            la().spmv(M(0), x, y);
            return okv(list(y.data(), y.size()));
        }
        if (n_ == "spmm") {
            if (M(0).empty()) return OK;
            Matrix x = mat(parse(o.s(1)), o.i(2)), y(M(0).rows(), o.i(2));
            y.fill(77);
            la().spmm(M(0), x, y);
            return okv(rows(y));
        }
        if (n_ == "dsptd") {
            Vector x = vec(parse(o.s(2))), y = vec(parse(o.s(3)));
            la().dsptd(x, M(1), y, M(0));
            return OK;
        }
        return "[\"badop\"]";
    }
};

template <class S>
struct Ten {
    using TT = Tensor<S>;
    std::vector<TT> t;
    static typename TT::Layout lay(const std::string& s) { return s == "L" ? TT::Layout::Left : TT::Layout::Right; }
    static std::vector<Size> shape(const T& x) {
        std::vector<Size> v;
        for (auto& c : x.a) v.push_back(c.n);
        return v;
    }
    static S& at(TT& t, const T& q) {
        auto i = [&](int k) { return size_t(q.a[k].n); };
        const TT& ct = t;
        switch (q.a.size()) {
            case 1: return t(i(0));
            case 2: return t(i(0), i(1));
            case 3: return const_cast<S&>(ct(i(0), i(1), i(2)));
            case 4: return t(i(0), i(1), i(2), i(3));
        }
        throw eckit::SeriousBug("rank");
    }
    const LinearAlgebraDense& la() {
        const char* names[] = {"generic", "openmp"};
        const char* k       = names[turn++ % 2];
        return LinearAlgebraDense::hasBackend(k) ? LinearAlgebraDense::getBackend(k) : LinearAlgebraDense::backend();
    }
    std::string op(const Op& o) {
        const std::string& n = o.name;
        auto X = [&](int i) -> TT& { return t.at(o.i(i) - 1); };
        if (n == "mk") {
            TT x(shape(parse(o.s(2))), lay(o.s(1)));
            T d = parse(o.s(3));
            for (size_t i = 0; i < d.a.size(); i++) x[i] = d.a[i].n;
            if (turn % 3 == 0) X(0) = x;
            else if (turn % 3 == 1) X(0) = std::move(x);
            else { TT y(std::move(x)); X(0).swap(y); }
            return OK;
        }
        if (n == "cp") {
            if (X(1).size() == 0) return OK;
            if (turn % 2) X(0) = X(1);
            else { TT y(X(1)); X(0) = std::move(y); }
            return OK;
        }
        if (n == "mv") {
            if (o.i(0) == o.i(1)) return OK;
            X(0) = std::move(X(1));
            if (X(1).size() != 0 || X(1).data() != nullptr || !X(1).shape().empty()) return "[\"moved\"]";
            X(1) = TT();
            return OK;
        }
        if (n == "swap") { X(0).swap(X(1)); return OK; }
        if (n == "resh") {
            auto s = shape(parse(o.s(1)));
            bool other = X(0).size() != TT::flatSize(s);
            X(0).resize(s);
            if (other) X(0).fill(o.i(2));
            return OK;
        }
        if (n == "fill") { if (o.i(1) == 0 && X(0).size() && turn % 2) X(0).zero(); else X(0).fill(o.i(1)); return OK; }
        if (n == "put") { at(X(0), parse(o.s(1))) = o.i(2); return OK; }
        if (n == "get") return okv(num(at(X(0), parse(o.s(1)))));
        if (n == "flip") {
            if (X(1).size() == 0) return OK;
            X(0) = X(1).layout() == TT::Layout::ColMajor ? X(1).transformColMajorToRowMajor() : X(1).transformRowMajorToColMajor();
            return OK;
        }
        if (n == "strm") {
            if (X(1).size() == 0) return OK;
            eckit::Buffer b(10000);
            eckit::ResizableMemoryStream w(b);
            w << X(1);
            eckit::MemoryStream r(b);
            X(0) = TT(r);
            return OK;
        }
        if (n == "show") {
            TT& x = X(0);
            if (x.size() == 0) return okv("[[],[]]");
            std::string d;
            size_t k = 0;
            for (S v : x) d += (k++ ? "," : "") + num(v);
            if (k != x.size()) return "[\"size\"]";
            return okv("[" + jlist(x.shape(), [](Size v) { return jnum(v); }) + ",[" + d + "],\"" + (x.layout() == TT::Layout::Left ? "L" : "R") + "\"]");
        }
        if (n == "big") {
            std::vector<Size> s;
            for (auto& c : parse(o.s(1)).a) s.push_back(Size(1) << c.n);
            S one;
            TT x(&one, s, lay(o.s(0)));
            auto lg = [](Size v) { long k = -1; if (v && !(v & (v - 1))) for (k = 0; v > 1; v >>= 1) k++; return jnum(k); };
            return okv("[" + lg(x.size()) + "," + jlist(TT::strides(lay(o.s(0)), x.shape()), lg) + "]");
        }
        if (n == "dot") { Vector x = vec(parse(o.s(0))), y = vec(parse(o.s(1))); return okv(num(la().dot(x, y))); }
        if (n == "gemv") {
            T a = parse(o.s(0));
            Matrix m = mat(a, a.a[0].a.size());
            Vector x = vec(parse(o.s(1))), y(m.rows());
            y.fill(77);
            la().gemv(m, x, y);
            return okv(list(y.data(), y.size()));
        }
        if (n == "gemm") {
            T a = parse(o.s(0)), b = parse(o.s(1));
            Matrix m = mat(a, a.a[0].a.size()), q = mat(b, b.a[0].a.size()), r(m.rows(), q.cols());
            r.fill(77);
            la().gemm(m, q, r);
            return okv(rows(r));
        }
        return "[\"badop\"]";
    }
};

template <class X>
static void all(X& x, const Script& s) {
    for (auto& o : s.ops) {
        turn++;
        std::string r;
        try { r = x.op(o); }
        catch (std::exception&) { r = EXC; }
        put(r);
    }
}
static void run(const Script& s) {
    if (s.cs(0) == "lin") {
        Lin l;
        for (long i = 0; i < s.ci(1); i++) l.m.emplace_back();
        l.b.resize(s.ci(2));
        l.n.resize(s.ci(2));
        all(l, s);
    }
    else if (s.cs(0) == "ten") { Ten<double> t; t.t.resize(s.ci(1)); all(t, s); }
    else { Ten<float> t; t.t.resize(s.ci(1)); all(t, s); }
}

int main(int argc, char** argv) {
    vt_main();
    return seqmain(argc, argv, run);
}
