// C interface to the linear algebra of the repository
#include <cstdlib>
#include <sstream>
#include <thread>
#include <vector>
#include <string>
#include "algebra/algebra.h"
#include "algebra/cg.h"
#include "algebra/bicg.h"
using V = std::vector<double>;

template <typename I, typename M, typename = void> struct masked
    {
    static void run(I &it, M &A, V &x, const V &b, const std::vector<int> &ld)
        { V xd(x.size(), 0.0); algebra::bicg_dir(it, A, x, b, xd, ld); }
    };
template <typename I, typename M>
struct masked<I, M, std::void_t<decltype(algebra::bicg_dir(std::declval<I &>(), std::declval<M &>(),
                    std::declval<V &>(), std::declval<const V &>(), std::declval<const std::vector<int> &>()))>>
    {
    static void run(I &it, M &A, V &x, const V &b, const std::vector<int> &ld)
        { algebra::bicg_dir(it, A, x, b, ld); }
    };

extern "C" {
void *spm_new(int n, int nnz, const int *I, const int *J)
    {
    algebra::MatrixShape shape(n);
    for (int k = 0; k < nnz; k++) shape[I[k]].insert(J[k]);
    return new algebra::SparseMatrix(shape);
    }
void spm_free(void *m) { delete static_cast<algebra::SparseMatrix *>(m); }
void spm_add(void *m, int i, int j, double x) { static_cast<algebra::SparseMatrix *>(m)->add(i, j, x); }
void spm_set(void *m, int i, int j, double x) { static_cast<algebra::SparseMatrix *>(m)->set(i, j, x); }
double spm_get(void *m, int i, int j) { return (*static_cast<const algebra::SparseMatrix *>(m))(i, j); }
void spm_clear(void *m) { static_cast<algebra::SparseMatrix *>(m)->clear(); }
void spm_mult(void *m, int n, const double *x, double *y)
    {
    V X(x, x + n), Y(n, 123.0);
    algebra::mult(*static_cast<algebra::SparseMatrix *>(m), X, Y);
    for (int i = 0; i < n; i++) y[i] = Y[i];
    }
void spm_precond(void *m, int n, double *d)
    {
    V D(n, 123.0);
    static_cast<algebra::SparseMatrix *>(m)->build_diag_precond<double>(D);
    for (int i = 0; i < n; i++) d[i] = D[i];
    }
// every thread makes `rounds` passes over its slice of the list
void spm_add_parallel(void *m, int threads, int rounds, int cnt, const int *I, const int *J, const double *x)
    {
    std::vector<std::thread> pool;
    std::atomic<int> ready{0};
    for (int t = 0; t < threads; t++)
        pool.emplace_back([=, &ready] {
            ready++;
            while (ready < threads) ;
            auto &M = *static_cast<algebra::SparseMatrix *>(m);
            for (int r = 0; r < rounds; r++)
                for (int k = t % cnt, c = 0; c < cnt; c++, k = (k + 1) % cnt) M.add(I[k], J[k], x[k]);
            });
    for (auto &t : pool) t.join();
    }
// kind: 0 cg, 1 cg_dir, 2 bicg, 3 bicg_dir with values, 4 bicg_dir with a mask
int alg_solve(int kind, int n, int nnz, const int *I, const int *J, const double *val, double *x, double *rhs,
              const double *xd, int nld, const int *ld, double tol, int maxiter, int before, int *nit, double *res,
              double *after, char *info)
    {
    algebra::MatrixShape shape(n);
    for (int k = 0; k < nnz; k++) shape[I[k]].insert(J[k]);
    algebra::SparseMatrix A(shape);
    for (int k = 0; k < nnz; k++) A.add(I[k], J[k], val[k]);
    V X(x, x + n), B(rhs, rhs + n), XD(xd, xd + n);
    const V XD0(XD);
    std::vector<int> L(ld, ld + nld);
    algebra::iteration<double> it("solver", tol, false, maxiter);
    if (before)  // the same iteration object, used for another system, then reset
        {
        const int m = 12;
        algebra::MatrixShape other(m);
        for (int i = 0; i < m; i++)
            for (int j : {i - 1, i, i + 1})
                if (j >= 0 && j < m) other[i].insert(j);
        algebra::SparseMatrix O(other);
        for (int i = 0; i < m; i++)
            for (int j : {i - 1, i, i + 1})
                if (j >= 0 && j < m) O.add(i, j, i == j ? 2.0 : -1.0);
        V OX(m, 0.0), OB(m, 1.0);
        if (before == 2) OB[3] = NAN;
        if (kind < 2) algebra::cg<double>(it, O, OX, OB);
        else algebra::bicg<double>(it, O, OX, OB);
        it.reset();
        }
    switch (kind)
        {
        case 0: algebra::cg<double>(it, A, X, B); break;
        case 1: algebra::cg_dir<double>(it, A, X, B, XD, L); break;
        case 2: algebra::bicg<double>(it, A, X, B); break;
        case 3: algebra::bicg_dir<double>(it, A, X, B, XD, L); break;
        default: masked<algebra::iteration<double>, algebra::SparseMatrix>::run(it, A, X, B, L);
        }
    for (int i = 0; i < n; i++) { x[i] = X[i]; rhs[i] = B[i]; }
    for (int k = 0; k < nnz; k++) after[k] = A(I[k], J[k]);
    *nit = it.get_iteration();
    *res = it.get_res();
    std::string s = it.infos();
    for (size_t i = 0; i < 199 && i <= s.size(); i++) info[i] = s.c_str()[i];
    info[199] = 0;
    if (XD != XD0) return 100;
    return it.status == algebra::CONVERGED ? 0 : it.status == algebra::ITER_OVERFLOW ? 1
           : it.status == algebra::CANNOT_CONVERGE ? 2 : -1;
    }
// vector operations: op 0 scaled(a,Y) 1 p_direct(X,Y,Z) 2 add(X,Y) 3 sub(X,Y) 4 scaled_add(X,a,Y)
// 5 applyMask 6 dot 7 norm 8 check
double vec_op(int op, int n, const double *x, double *y, double a, int nm, const int *mask)
    {
    V X(x, x + n), Y(y, y + n), Z(n, 7.0);
    std::vector<int> M(mask, mask + nm);
    double out = 0;
    switch (op)
        {
        case 0: algebra::scaled(a, Y); break;
        case 1: algebra::p_direct(X, Y, Z); Y = Z; break;
        case 2: algebra::add(X, Y); break;
        case 3: algebra::sub(X, Y); break;
        case 4: algebra::scaled_add(X, a, Y); break;
        case 5: algebra::applyMask(M, Y); break;
        case 6: out = algebra::dot(X, Y); break;
        case 7: out = algebra::norm(X); break;
        case 8: out = algebra::check(X); break;
        }
    for (int i = 0; i < n; i++) y[i] = Y[i];
    return out;
    }
}
