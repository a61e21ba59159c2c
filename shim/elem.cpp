// C interface to nodes, tetrahedra and triangles
#include <vector>
#include "node.h"
#include "tetra.h"
#include "triangle.h"
using Eigen::Vector3d;
static Vector3d v3(const double *p) { return Vector3d(p[0], p[1], p[2]); }
static void put(const Vector3d &v, double *o) { for (int i = 0; i < 3; i++) o[i] = v(i); }
static std::vector<Nodes::Node> nodes(int n, const double *p, const double *u)
    {
    std::vector<Nodes::Node> v(n);
    for (int i = 0; i < n; i++)
        {
        v[i].p = v3(p + 3 * i);
        v[i].d[0].u = v[i].d[1].u = v3(u + 3 * i);
        v[i].d[0].v = v[i].d[1].v = 2.0 * v3(u + 3 * i);
        v[i].d[0].phi = v[i].d[1].phi = u[3 * i];
        v[i].d[0].phiv = v[i].d[1].phiv = -u[3 * i];
        v[i].ep.setZero();
        v[i].eq.setZero();
        }
    return v;
    }
extern "C" {
int el_tet_npi() { return Tetra::NPI; }
int el_tri_npi() { return Triangle::NPI; }
// sequence of steps of one node: per step angle, vp, vq, dt. Output per step: ep eq v u
void el_node(const double *u0, int n, const double *prm, double *out)
    {
    Nodes::Node nd;
    nd.p.setZero();
    nd.d[0].u = nd.d[1].u = v3(u0);
    nd.d[0].v.setZero();
    nd.d[1].v.setZero();
    for (int k = 0; k < n; k++, prm += 4, out += 14)
        {
        nd.setBasis(prm[0]);
        nd.make_evol(prm[1], prm[2], prm[3]);
        put(nd.ep, out);
        put(nd.eq, out + 3);
        put(nd.get_v(Nodes::NEXT), out + 6);
        put(nd.get_u(Nodes::NEXT), out + 9);
        out[12] = nd.proj_ep();
        out[13] = nd.proj_eq();
        nd.evolution();
        }
    }
// tetrahedron: order = vertex order (0..3). Returns 1 when refused
int el_tet(const double *p, const double *u, const int *order, double Ms, double *w, double *gauss,
           double *val, double *gx, double *gy, double *gz, double *phi, double *field, double *chg, double *da,
           int *ind, double *vol)
    {
    try
        {
        auto nd = nodes(4, p, u);
        Tetra::Tet t(nd, 0, {order[0] + 1, order[1] + 1, order[2] + 1, order[3] + 1});
        Eigen::Matrix<double, 3, Tetra::NPI> U, X, Y, Z, F, G = t.getPtGauss();
        Eigen::Matrix<double, Tetra::NPI, 1> P, C = t.charges(Ms, Nodes::get_u<Nodes::NEXT>);
        t.interpolation(Nodes::get_u<Nodes::NEXT>, U, X, Y, Z);
        t.interpolation(Nodes::get_phi<Nodes::NEXT>, P);
        t.interpolation_field(Nodes::get_phi<Nodes::NEXT>, F);
        for (int j = 0; j < Tetra::NPI; j++)
            {
            w[j] = t.weight[j];
            phi[j] = P[j];
            chg[j] = C[j];
            put(G.col(j), gauss + 3 * j);
            put(U.col(j), val + 3 * j);
            put(X.col(j), gx + 3 * j);
            put(Y.col(j), gy + 3 * j);
            put(Z.col(j), gz + 3 * j);
            put(F.col(j), field + 3 * j);
            }
        for (int i = 0; i < 4; i++)
            {
            ind[i] = t.ind[i];
            for (int k = 0; k < 3; k++) da[3 * i + k] = t.da(i, k);
            }
        *vol = t.calc_vol();
        return 0;
        }
    catch (VerifExit &) { return 1; }
    }
int el_tri(const double *p, const double *u, const int *order, double dMs, double *w, double *gauss,
           double *val, double *phi, double *chg, double *n, double *surf, double *pot, double *corr)
    {
    try
        {
        auto nd = nodes(3, p, u);
        Triangle::Tri t(nd, 0, {order[0] + 1, order[1] + 1, order[2] + 1});
        t.dMs = dMs;
        Eigen::Matrix<double, 3, Triangle::NPI> U, G = t.getPtGauss();
        Eigen::Matrix<double, Triangle::NPI, 1> P, C = t.charges(dMs, Nodes::get_u<Nodes::NEXT>);
        t.interpolation(Nodes::get_u<Nodes::NEXT>, U);
        t.interpolation(Nodes::get_phi<Nodes::NEXT>, P);
        for (int j = 0; j < Triangle::NPI; j++)
            {
            w[j] = t.weight[j];
            phi[j] = P[j];
            chg[j] = C[j];
            put(G.col(j), gauss + 3 * j);
            put(U.col(j), val + 3 * j);
            }
        put(t.calc_norm(), n);
        put(t.n, n + 3);
        surf[0] = t.calc_surf();
        surf[1] = t.surf;
        for (int i = 0; i < 3; i++) pot[i] = t.potential(Nodes::get_u<Nodes::NEXT>, i);
        return 0;
        }
    catch (VerifExit &) { return 1; }
    }
}
