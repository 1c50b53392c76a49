#include "h.hpp"
using namespace snn;
int main()
{
    Rng r(seed());
    for (int rep = 0; rep < (thorough() ? 20000 : 3000); ++rep)
    {
        int n = r.range(1, 7), t = r.range(1, 4), d = r.range(1, 4); float a = r.real(-3, 2), b = a + r.real(0.1f, 4); vector2D<float> in, lab, tin, tlab; ++CASES;
        std::vector<bool> konst(d); for (int j = 0; j < d; ++j) konst[j] = r.below(4) == 0; V base = r.vec(d, -20, 20); float sc = r.below(2) ? 1.0f : 100.0f;
        for (int i = 0; i < n; ++i) { V x = r.vec(d, -sc, sc); for (int j = 0; j < d; ++j) if (konst[j]) x[j] = base[j]; in.push_back(x); V y(2, 0.0f); y[r.below(2)] = 1; lab.push_back(y); } for (int i = 0; i < t; ++i) { tin.push_back(r.vec(d, -2 * sc, 2 * sc)); V y(2, 0.0f); y[r.below(2)] = 1; tlab.push_back(y); }
        Data data(problem::classification, in, lab, tin, tlab); data.setSeparator(0.4f); if (rep % 3 == 0) data.shuffle(); auto ord = data.sets[training].shuffledIndexes; data.normalize(a, b);
        auto& x = data.sets[training].inputs; auto& y = data.sets[testing].inputs; CHECK((int)x.size() == n && (int)y.size() == t && data.sets[training].labels == lab && data.sets[testing].labels == tlab && data.sets[training].shuffledIndexes == ord && data.getSeparator() == 0.4f && data.sizeOfData == d && data.sets[training].size == n && data.sets[testing].size == t, "something else changed");
        for (int j = 0; j < d; ++j)
        {
            double lo = 1e30, hi = -1e30, l2 = 1e30, h2 = -1e30; for (int i = 0; i < n; ++i) { lo = std::min(lo, (double)in[i][j]); hi = std::max(hi, (double)in[i][j]); l2 = std::min(l2, (double)x[i][j]); h2 = std::max(h2, (double)x[i][j]); }
            V col; for (auto& v : in) col.push_back(v[j]); ctxmsg = S("column ", str(col), " to [", a, ", ", b, "]"); const double eps = 1e-5 * (1 + std::abs(a) + std::abs(b));
            CHECK(std::abs(l2 - a) < eps, "smallest value is ", l2); CHECK(h2 < b + eps, "largest value is ", h2); if (hi > lo) CHECK(std::abs(h2 - b) < eps, "largest value is ", h2);
            double s = hi > lo ? (b - a) / (hi - lo) : (double)b - a; auto f = [&](double v) { return (v - lo) * s + a; };
            for (int i = 0; i < n; ++i) CHECK(std::abs(x[i][j] - f(in[i][j])) < 1e-4 * (1 + std::abs(f(in[i][j]))), "training value ", in[i][j], " became ", x[i][j], ", expected ", f(in[i][j]));
            if (hi > lo) { if (hi - lo > 1e-3) for (int i = 0; i < t; ++i) CHECK(std::abs(y[i][j] - f(tin[i][j])) < 1e-3 * (1 + std::abs(f(tin[i][j]))), "testing value ", tin[i][j], " became ", y[i][j], ", expected ", f(tin[i][j])); }
            else for (int i = 0; i < t; ++i) for (int k = 0; k < t; ++k) if (tin[i][j] < tin[k][j] - 1e-3) CHECK(y[i][j] < y[k][j], "testing values of a constant column are not mapped by an increasing map");
        }
    }
    return finish();
}
