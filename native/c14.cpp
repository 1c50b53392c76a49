#include "h.hpp"
#include <fstream>
using namespace snn;
struct SA : si::StatisticAnalysis { SA() {} };
int main()
{
    Rng r(seed());
    for (int rep = 0; rep < (thorough() ? 20000 : 2000); ++rep)
    {
        int n = r.range(1, 4); SA s; s.initialize(n); double best[5] = {-1, -1, -1, -1, -1}; ++CASES;
        for (int t = 0; t < 12; ++t)
        {
            s.startTesting(); int data = r.range(1, 5), kind = r.below(3);
            for (int d = 0; d < data; ++d) { V o = r.vec(n, 0, 1), w = r.vec(n, 0, 1); if (r.below(3) == 0) o = w; if (kind == 0) s.evaluateOnceForClassification(o, r.below(n), 0.5f); else if (kind == 1) s.evaluateOnceForMultipleClassification(o, w, 0.5f); else s.evaluateOnceForRegression(o, w, 0.1f); }
            const float now[5] = {s.computeGlobalClusteringRate(), s.computeWeightedClusteringRate(), s.computeF1Score(), s.computeMeanAbsoluteError(), s.computeRootMeanSquaredError()};
            s.stopTesting(); ctxmsg = S("evaluation ", t);
            const float last[5] = {s.getGlobalClusteringRate(), s.getWeightedClusteringRate(), s.getF1Score(), s.getMeanAbsoluteError(), s.getRootMeanSquaredError()}, got[5] = {s.getGlobalClusteringRateMax(), s.getWeightedClusteringRateMax(), s.getF1ScoreMax(), s.getMeanAbsoluteErrorMin(), s.getRootMeanSquaredErrorMin()};
            const bool flag[5] = {s.globalClusteringRateIsBetterThanMax, s.weightedClusteringRateIsBetterThanMax, s.f1ScoreIsBetterThanMax, s.meanAbsoluteErrorIsBetterThanMin, s.rootMeanSquaredErrorIsBetterThanMin};
            static const char* name[5] = {"accuracy", "weighted accuracy", "F1 score", "mean absolute error", "root mean squared error"};
            for (int k = 0; k < 5; ++k)
            {
                bool better = k < 3 ? now[k] > best[k] : best[k] < 0 || now[k] < best[k]; if (better) best[k] = now[k];
                CHECK(last[k] == now[k], "the last ", name[k], " is ", last[k], ", the evaluation gave ", now[k]); CHECK(got[k] == (float)best[k], "the best ", name[k], " is ", got[k], ", expected ", best[k]); CHECK(flag[k] == better, "the ", name[k], " of ", now[k], " is flagged ", flag[k], " with a best so far of ", best[k]);
            }
        }
    }
    // automatic save happens exactly when the accuracy improves
    char dir[] = "/tmp/snnc14XXXXXX"; CHECK(mkdtemp(dir), "mkdtemp"); std::string path = std::string(dir) + "/auto.snn";
    for (int rep = 0; rep < 12; ++rep)
    {
        auto net = newNet({2}, {FullyConnected(2, activation::identity)}); net->autoSaveFilePath = path; net->autoSaveWhenBetter = rep != 0; double best = -1; ++CASES; ctxmsg = "automatic save";
        for (int t = 0; t < 8; ++t)
        {
            randomize(*net, r); vector2D<float> in, lab; for (int d = 0; d < 4; ++d) { in.push_back(r.vec(2)); V l(2, 0.0f); l[r.below(2)] = 1; lab.push_back(l); }
            Data data(problem::classification, in, lab); unlink(path.c_str()); Wait w; net->evaluate(data, &w); bool saved = access(path.c_str(), F_OK) == 0, better = net->getGlobalClusteringRate() > best; if (better) best = net->getGlobalClusteringRate();
            if (rep == 0) CHECK(!saved, "saved although not asked to"); else CHECK(saved == better, saved ? "saved without improvement" : "not saved although the accuracy improved to ", best);
        }
    }
    unlink(path.c_str()); rmdir(dir);
    return finish();
}
