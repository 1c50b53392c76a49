#include "h.hpp"
using namespace snn;
struct SA : si::StatisticAnalysis { SA() {} };
struct Ref { std::vector<std::array<double, 4>> k; std::vector<double> err; double well = 0, mis = 0; }; // TP TN FP FN
static float pick(Rng& r, float around) { switch (r.below(6)) { case 0: return around; case 1: return std::nextafter(around, 1e9f); case 2: return std::nextafter(around, -1e9f); case 3: return r.real(-3, -2); default: return r.real(-1, 1.5f); } }
static void compare(SA& s, const Ref& q, const std::string& what)
{
    size_t n = q.k.size(); CHECK(s.clusters.size() == n, what, ": number of outputs");
    for (size_t i = 0; i < n; ++i)
    {
        auto& c = s.clusters[i]; CHECK(c.truePositive + c.trueNegative + c.falsePositive + c.falseNegative == q.well + q.mis, what, ": counters of output ", i, " sum to ", c.truePositive + c.trueNegative + c.falsePositive + c.falseNegative, " for ", q.well + q.mis, " data");
        CHECK(c.truePositive == q.k[i][0] && c.trueNegative == q.k[i][1] && c.falsePositive == q.k[i][2] && c.falseNegative == q.k[i][3], what, ": output ", i, " has TP TN FP FN ", c.truePositive, " ", c.trueNegative, " ", c.falsePositive, " ", c.falseNegative, ", expected ", q.k[i][0], " ", q.k[i][1], " ", q.k[i][2], " ", q.k[i][3]);
    }
    CHECK(s.numberOfDataWellClassified == q.well && s.numberOfDataMisclassified == q.mis, what, ": ", s.numberOfDataWellClassified, " well and ", s.numberOfDataMisclassified, " misclassified, expected ", q.well, " and ", q.mis);
    if (q.well + q.mis == 0) return;
    s.stopTesting(); double rec = 0, f1 = 0, mae = 0;
    for (size_t i = 0; i < n; ++i) { double tp = q.k[i][0], fp = q.k[i][2], fn = q.k[i][3]; if (tp > 0) { rec += tp / (tp + fn); f1 += 2 * tp / (2 * tp + fp + fn); } mae += q.err[i]; }
    CHECK(near(s.getGlobalClusteringRate(), q.well / (q.well + q.mis)), what, ": accuracy ", s.getGlobalClusteringRate(), " for ", q.well, " of ", q.well + q.mis);
    CHECK(near(s.getWeightedClusteringRate(), rec / n), what, ": weighted accuracy ", s.getWeightedClusteringRate(), ", expected ", rec / n);
    CHECK(near(s.getF1Score(), f1 / n), what, ": F1 score ", s.getF1Score(), ", expected ", f1 / n);
    CHECK(near(s.getMeanAbsoluteError(), mae / (q.well + q.mis)), what, ": mean absolute error ", s.getMeanAbsoluteError(), ", expected ", mae / (q.well + q.mis));
    for (float v : {s.getGlobalClusteringRate(), s.getWeightedClusteringRate(), s.getF1Score()}) CHECK(v >= 0 && v <= 1.00001f, what, ": a rate is ", v);
}
int main()
{
    Rng r(seed());
    for (int rep = 0; rep < (thorough() ? 30000 : 3000); ++rep)
    {
        int n = r.range(1, 6), data = r.range(0, 9), kind = r.below(3); ++CASES; SA s; s.initialize(n); int rounds = r.range(1, 3);
        for (int round = 0; round < rounds; ++round)
        {
            s.startTesting(); Ref q; q.k.resize(n, {0, 0, 0, 0}); q.err.resize(n, 0.0); std::string what;
            for (int d = 0; d < data; ++d)
            {
                float sep = r.below(3) ? 0.5f : r.real(-1, 1); V o(n), w(n); for (int i = 0; i < n; ++i) { w[i] = pick(r, sep); o[i] = pick(r, r.below(2) ? w[i] : sep); } if (n > 1 && r.below(4) == 0) o[r.below(n)] = o[r.below(n)];
                bool well = true;
                if (kind == 0)
                {
                    int cls = r.below(n), best = 0; for (int i = 1; i < n; ++i) if (o[i] > o[best]) best = i; well = best == cls; if (r.below(5) == 0) for (auto& v : o) v -= 5; best = 0; for (int i = 1; i < n; ++i) if (o[i] > o[best]) best = i; well = best == cls;
                    for (int i = 0; i < n; ++i) { bool pos = o[i] > sep, want = i == cls; q.k[i][want ? (pos ? 0 : 3) : (pos ? 2 : 1)]++; q.err[i] += std::abs((double)(want ? 1 : 0) - o[i]); }
                    what = S("classification, outputs ", str(o), ", class ", cls, ", separator ", sep); s.evaluateOnceForClassification(o, cls, sep);
                }
                else if (kind == 1)
                {
                    for (int i = 0; i < n; ++i) { bool pos = o[i] > sep, want = w[i] > sep; well = well && pos == want; q.k[i][want ? (pos ? 0 : 3) : (pos ? 2 : 1)]++; q.err[i] += std::abs((double)w[i] - o[i]); }
                    what = S("multiple classification, outputs ", str(o), ", expected ", str(w), ", separator ", sep); s.evaluateOnceForMultipleClassification(o, w, sep);
                }
                else
                {
                    float p = r.below(2) ? 0.125f : r.real(0, 1); for (int i = 0; i < n; ++i) { w[i] = (float)r.range(-16, 16) / 8; o[i] = w[i] + (float)r.range(-3, 3) * 0.125f; if (std::abs(std::abs(o[i] - w[i]) - p) < 1e-5 && p != 0.125f) o[i] = w[i]; }
                    for (int i = 0; i < n; ++i) { bool hi = o[i] > w[i] + p, lo = o[i] < w[i] - p; well = well && !hi && !lo; q.k[i][hi ? 2 : lo ? 3 : 1]++; q.err[i] += std::abs((double)w[i] - o[i]); }
                    what = S("regression, outputs ", str(o), ", expected ", str(w), ", precision ", p); s.evaluateOnceForRegression(o, w, p);
                }
                (well ? q.well : q.mis)++;
            }
            compare(s, q, S(what, " after ", data, " data"));
        }
    }
    // through a network: identity layer, so that the outputs are the inputs
    for (int rep = 0; rep < (thorough() ? 600 : 80); ++rep)
    {
        int n = r.range(2, 4), sz = r.range(1, 7), kind = r.below(3); ++CASES; auto net = newNet({n}, {FullyConnected(n, activation::identity)});
        for (int i = 0; i < n; ++i) { V w(n + 1, 0.0f); w[i] = 1; sn(*net->layers[0], i)->setWeights(w); }
        vector2D<float> in, lab; for (int d = 0; d < sz; ++d) { in.push_back(r.vec(n)); V l(n, 0.0f); if (kind == 0) l[r.below(n)] = 1; else l = r.vec(n); lab.push_back(l); }
        Data data(kind == 0 ? problem::classification : kind == 1 ? problem::multipleClassification : problem::regression, in, lab); float lim = kind == 2 ? 0.1f : r.real(0, 1); if (kind != 2) data.setSeparator(lim); Wait w; net->evaluate(data, &w);
        double well = 0, mae = 0; for (int d = 0; d < sz; ++d) { bool ok = true; int best = 0; for (int i = 0; i < n; ++i) { if (in[d][i] > in[d][best]) best = i; mae += std::abs((double)in[d][i] - lab[d][i]); if (kind == 1) ok = ok && (in[d][i] > lim) == (lab[d][i] > lim); if (kind == 2) ok = ok && std::abs(in[d][i] - lab[d][i]) <= lim; } if (kind == 0) ok = lab[d][best] == 1; well += ok; }
        CHECK(net->numberOfDataWellClassified + net->numberOfDataMisclassified == sz, "an evaluation of ", sz, " data counted ", net->numberOfDataWellClassified, " + ", net->numberOfDataMisclassified); CHECK(near(net->getGlobalClusteringRate(), well / sz), "network accuracy ", net->getGlobalClusteringRate(), ", expected ", well / sz, " kind ", kind); CHECK(near(net->getMeanAbsoluteError(), mae / sz), "network error ", net->getMeanAbsoluteError(), ", expected ", mae / sz);
    }
    return finish();
}
