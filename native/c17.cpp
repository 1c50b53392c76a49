#include "h.hpp"
using namespace snn;
static V row(int i) { return {(float)i, 0.5f}; }
static bool perm(VI o) { std::sort(o.begin(), o.end()); for (size_t i = 0; i < o.size(); ++i) if (o[i] != (int)i) return false; return true; }
static bool iota(const VI& o) { for (size_t i = 0; i < o.size(); ++i) if (o[i] != (int)i) return false; return true; }
int main()
{
    Rng r(seed());
    for (int rep = 0; rep < (thorough() ? 3000 : 300); ++rep)
    {
        int n = r.range(1, 20); vector2D<float> in, lab; for (int i = 0; i < n; ++i) { in.push_back(row(i)); lab.push_back({0, 1}); } Data d(problem::classification, in, lab); ++CASES; bool moved = false; ctxmsg = S("non temporal, ", n, " data");
        for (int s = 0; s < 6; ++s) { d.shuffle(); auto& o = d.sets[training].shuffledIndexes; CHECK((int)o.size() == n && perm(o), "order ", str(o), " is not a permutation"); moved = moved || !iota(o); for (int i = 0; i < n; ++i) { CHECK(d.isFirstTrainingDataOfTemporalSequence(i), "reset flag"); CHECK(d.needToLearnOnTrainingData(i), "learning flag"); } if (s == 3) { d.unshuffle(); CHECK((int)o.size() == n && iota(o), "unshuffled order is ", str(o)); } }
        if (n > 8) CHECK(moved, "shuffling never changed the order");
        // sequential data
        vector3D<float> seq; vector2D<float> lab2; std::vector<bool> first; int k = r.range(1, 5), idx = 0; for (int i = 0; i < k; ++i) { int m = r.range(1, 4); vector2D<float> q; for (int j = 0; j < m; ++j) { q.push_back(row(idx++)); lab2.push_back({0, 1}); first.push_back(j == 0); } seq.push_back(q); }
        Data e(problem::classification, seq, lab2, nature::sequential); ctxmsg = S("sequential, ", idx, " data in ", k, " sequences"); ++CASES;
        for (int s = 0; s < 4; ++s)
        {
            e.shuffle(); auto& o = e.sets[training].shuffledIndexes; CHECK((int)o.size() == idx && perm(o), "order ", str(o), " is not a permutation");
            for (int i = 0; i < idx; ++i) { CHECK(e.isFirstTrainingDataOfTemporalSequence(i) == first[o[i]], "reset flag of position ", i); CHECK(e.needToLearnOnTrainingData(i), "learning flag"); if (!first[o[i]]) CHECK(i > 0 && o[i] == o[i - 1] + 1, "datum ", o[i], " does not follow its predecessor"); }
        }
        e.unshuffle(); CHECK(iota(e.sets[training].shuffledIndexes), "unshuffled order");
        int t = 0; for (auto& q : seq) for (size_t j = 0; j < q.size(); ++j, ++t) { CHECK(e.isFirstTestingDataOfTemporalSequence(t) == (j == 0), "testing reset flag ", t); CHECK(e.needToEvaluateOnTestingData(t) == (j + 1 == q.size()), "evaluation flag ", t); }
    }
    for (int n = 1; n <= (thorough() ? 40 : 16); ++n) for (int rec = 1; rec <= n + 2 && rec < 14; ++rec) for (int rep = 0; rep < (thorough() ? 6 : 3); ++rep)
    {
        vector2D<float> in, lab; for (int i = 0; i < n; ++i) { in.push_back(row(i)); lab.push_back({0, 1}); } Data d(problem::regression, in, lab, nature::timeSeries, rec); ++CASES;
        auto check = [&](int s) {
            ctxmsg = S("time series, ", n, " data, ", rec, " recurrences, after ", s, " shuffles"); auto& o = d.sets[training].shuffledIndexes; CHECK((int)o.size() == n && (int)d.sets[training].needToTrainOnData.size() == n && (int)d.sets[training].areFirstDataOfTemporalSequence.size() == n, "sizes"); bool started = false; CHECK(d.isFirstTrainingDataOfTemporalSequence(0), "the first datum is no start");
            for (int i = 0; i < n; ++i) { CHECK(o[i] >= 0 && o[i] < n, "index ", o[i], " at position ", i); bool f = d.isFirstTrainingDataOfTemporalSequence(i); started = started || f; if (d.needToLearnOnTrainingData(i)) { CHECK(started, "trained before any start"); int j = i; while (!d.isFirstTrainingDataOfTemporalSequence(j)) { CHECK(o[j] == o[j - 1] + 1, "position ", j, " holds ", o[j], " after ", o[j - 1], " inside a window that is trained on"); --j; } } }
        };
        check(0); for (int s = 1; s <= 2 * rec + 6; ++s) { d.shuffle(); check(s); if (rep == 2 && s == rec) { d.unshuffle(); CHECK(iota(d.sets[training].shuffledIndexes), "unshuffled order"); check(-s); for (int i = 0; i < n; ++i) CHECK(d.needToLearnOnTrainingData(i) && d.isFirstTrainingDataOfTemporalSequence(i) == (i == 0), "flags after unshuffle"); } }
    }
    return finish();
}
