#include "h.hpp"
using namespace snn;
int main()
{
    Rng r(seed());
    for (int rep = 0; rep < (thorough() ? 6000 : 600); ++rep)
    {
        int n = r.range(1, 12), d = r.range(1, 5), l = r.range(2, 4); vector2D<float> in, lab, tin, tlab; int kind = r.below(3); ++CASES;
        for (int i = 0; i < n; ++i) { in.push_back(r.vec(d, -4, 4)); V y = r.vec(l); if (kind == 0) { y.assign(l, 0.0f); y[r.below(l)] = 1; } lab.push_back(y); } for (int i = 0; i < 2; ++i) { tin.push_back(r.vec(d)); V y(l, 0.0f); y[0] = 1; tlab.push_back(y); }
        Data data(kind == 0 ? problem::classification : kind == 1 ? problem::multipleClassification : problem::regression, in, lab, tin, tlab);
        for (int q = 0; q < 12; ++q)
        {
            if (r.below(3) == 0) data.shuffle(); if (r.below(8) == 0) data.unshuffle(); int b = r.range(1, n), i = r.range(0, n - b); ctxmsg = S(n, " data of size ", d, ", batch of ", b, " from ", i); auto ord = data.sets[training].shuffledIndexes;
            auto x = data.getTrainingData(i, b); auto y = data.getTrainingOutputs(i, b); CHECK((int)x.size() == d && (int)y.size() == l, "sizes ", x.size(), " and ", y.size());
            for (int c = 0; c < d; ++c) { double m = 0; for (int j = 0; j < b; ++j) m += in[ord[i + j]][c]; m /= b; CHECK(near(x[c], m, 1e-5), "input ", c, " is ", x[c], ", the mean is ", m); if (b == 1) CHECK(x[c] == in[ord[i]][c], "batch of one changes input ", c); }
            for (int c = 0; c < l; ++c) { double m = 0; for (int j = 0; j < b; ++j) m += lab[ord[i + j]][c]; m /= b; CHECK(near(y[c], m, 1e-5), "expected output ", c, " is ", y[c], ", the mean is ", m); }
            CHECK(data.sets[training].inputs == in && data.sets[training].labels == lab && data.sets[testing].inputs == tin && data.sets[training].shuffledIndexes == ord, "the data set was changed");
            CHECK(data.getData(training, i) == in[ord[i]] && data.getOutputs(training, i) == lab[ord[i]] && data.getTrainingData(i) == in[ord[i]] && data.getTrainingOutputs(i) == lab[ord[i]], "single entry");
        }
    }
    return finish();
}
