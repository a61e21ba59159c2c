#include "expression_parser.h"
template <typename F> static int guard(F f)
    {
    try { f(); return 0; }
    catch (VerifExit &) { return 1; }
    catch (...) { return 2; }
    }
extern "C" {
void *ex_new() { return new ExpressionParser; }
void ex_free(void *h) { delete static_cast<ExpressionParser *>(h); }
int ex_set_function(void *h, const char *s)
    { return guard([&] { static_cast<ExpressionParser *>(h)->set_function(s); }); }
int ex_set_expressions(void *h, const char *p, const char *x, const char *y, const char *z)
    { return guard([&] { static_cast<ExpressionParser *>(h)->set_expressions(p, x, y, z); }); }
int ex_scalar(void *h, double t, double *out)
    { return guard([&] { out[0] = static_cast<ExpressionParser *>(h)->get_scalar(t); }); }
int ex_vec1(void *h, double t, double *out)
    {
    return guard([&] {
        Eigen::Vector3d v = static_cast<ExpressionParser *>(h)->get_vector(t);
        for (int i = 0; i < 3; i++) out[i] = v(i);
        });
    }
int ex_vec3(void *h, const double *p, double *out)
    {
    return guard([&] {
        Eigen::Vector3d v = static_cast<ExpressionParser *>(h)->get_vector(Eigen::Vector3d(p[0], p[1], p[2]));
        for (int i = 0; i < 3; i++) out[i] = v(i);
        });
    }
}
