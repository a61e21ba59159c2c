#include "log-stats.h"
extern "C" void st_run(int n, const double *x, double *out)
    {
    LogStats s;
    for (int i = 0; i < n; i++)
        {
        s.add(x[i]);
        out[3 * i] = s.count();
        out[3 * i + 1] = s.mean();
        out[3 * i + 2] = s.stddev();
        }
    }
