#include "h.hpp"
using namespace snn; using namespace snn::tools;
template <class T> static void extrema(Rng& r, const char* n, T lo, T hi)
{
    CHECK(throws([] { getMinValue(std::vector<T>{}); }) && throws([] { getMaxValue(std::vector<T>{}); }), "an empty list of ", n, " does not throw");
    for (int rep = 0; rep < 3000; ++rep) { std::vector<T> v(r.range(1, 6)); for (auto& x : v) { x = (T)(lo + (hi - lo) * r.unit()); if (r.below(6) == 0) x = r.below(2) ? lo : hi; if (r.below(6) == 0) x = v[0]; } ++CASES; T a = v[0], b = v[0]; for (T x : v) { a = x < a ? x : a; b = b < x ? x : b; } CHECK(getMinValue(v) == a, "minimum of ", str(v), " is ", getMinValue(v)); CHECK(getMaxValue(v) == b, "maximum of ", str(v), " is ", getMaxValue(v)); }
}
int main()
{
    Rng r(seed()); int N = thorough() ? 12 : 7;
    for (int X = 1; X <= N; ++X) for (int Y = 1; Y <= N; ++Y)
    {
        std::set<int> seen2; for (int y = 0; y < Y; ++y) for (int x = 0; x < X; ++x) { int i = flatten(x, y, X); ctxmsg = S("(", x, ", ", y, ") in ", X, " x ", Y); ++CASES; CHECK(seen2.insert(i).second, "index ", i, " twice"); CHECK(roughenX(i, X) == x && roughenY(i, X) == y, "index ", i, " gives (", roughenX(i, X), ", ", roughenY(i, X), ")"); }
        for (int Z = 1; Z <= N; ++Z) { std::set<int> seen; for (int z = 0; z < Z; ++z) for (int y = 0; y < Y; ++y) for (int x = 0; x < X; ++x) { int i = flatten(x, y, z, X, Y); ctxmsg = S("(", x, ", ", y, ", ", z, ") in ", X, " x ", Y, " x ", Z); ++CASES; CHECK(seen.insert(i).second, "index ", i, " twice"); CHECK(i >= 0 && i < X * Y * Z, "index ", i, " outside"); CHECK(roughenX(i, X, Y) == x && roughenY(i, X, Y) == y && roughenZ(i, X, Y) == z, "index ", i, " gives (", roughenX(i, X, Y), ", ", roughenY(i, X, Y), ", ", roughenZ(i, X, Y), ")"); } }
    }
    ctxmsg = ""; for (int rep = 0; rep < 2000; ++rep) { vector2D<float> v(r.below(5)); V all; for (auto& x : v) { x = r.vec(r.below(4)); all.insert(all.end(), x.begin(), x.end()); } ++CASES; CHECK(flatten(v) == all, "flattened rows are ", str(flatten(v)), ", expected ", str(all)); }
    extrema<int>(r, "int", std::numeric_limits<int>::min() / 2, std::numeric_limits<int>::max() / 2); extrema<float>(r, "float", -1e30f, 1e30f); extrema<double>(r, "double", -5, 5); extrema<unsigned>(r, "unsigned", 0, 4000000000u);
    return finish();
}
