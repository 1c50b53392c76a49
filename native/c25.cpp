#include "h.hpp"
using namespace snn;
struct SA : si::StatisticAnalysis { SA() {} };
int main()
{
    Rng r(seed());
    for (int rep = 0; rep < (thorough() ? 40000 : 5000); ++rep)
    {
        int n = r.range(1, 7); auto net = newNet({n}, {FullyConnected(n, activation::identity)}); float scale = std::vector<float>{1, 100, 1e6f, 1e-3f}[r.below(4)], shift = std::vector<float>{0, -5, 5, -1000}[r.below(4)]; V o = r.vec(n, -scale, scale); for (auto& v : o) { v += shift; if (r.below(3) == 0) v = o[0]; } if (r.below(4) == 0) for (auto& v : o) v = (float)r.range(-4, -2); ++CASES;
        for (int i = 0; i < n; ++i) { V w(n + 1, 0.0f); w[n] = o[i] / sn(*net->layers[0], i)->bias; sn(*net->layers[0], i)->setWeights(w); } V x(n, 0.0f); o = net->computeOutput(x); int best = 0; for (int i = 1; i < n; ++i) if (o[i] > o[best]) best = i;
        int got = net->computeCluster(x); CHECK(got == best, "outputs ", str(o), " give class ", got, ", expected ", best);
        for (int c = 0; c < n; ++c) { SA s; s.initialize(n); s.evaluateOnceForClassification(o, c, 0.5f); CHECK(s.numberOfDataWellClassified == (c == best) && s.numberOfDataMisclassified == (c != best), "outputs ", str(o), " judged ", s.numberOfDataWellClassified ? "right" : "wrong", " for class ", c); }
    }
    return finish();
}
