#include "h.hpp"
#include <fstream>
using namespace snn;
int main()
{
    Rng r(seed()); auto archs = allArchs(true); char dir[] = "/tmp/snnc22XXXXXX"; CHECK(mkdtemp(dir), "mkdtemp"); std::string path = std::string(dir) + "/n.snn";
    struct Clean { std::string p, d; ~Clean() { unlink(p.c_str()); rmdir(d.c_str()); } };
    for (int rep = 0; rep < (thorough() ? 24 : 4); ++rep) for (auto& a : archs)
    {
        ctxmsg = S(a.name, " repetition ", rep); ++CASES; auto n = build(a, 0.05f, rep % 2 ? 0.5f : 0.0f); int in = prod(a.in), out = n->getNumberOfOutputs(); bool drop = a.name.find("dropout") != std::string::npos || a.name == "several optimizers";
        { auto same = a; auto f = build(same); (void)f; }
        int steps = rep == 0 ? 0 : r.range(0, 4); bool reset = true; for (int i = 0; i < steps; ++i) { n->trainOnce(r.vec(in), r.vec(out, 0, 1), reset); reset = r.below(2); }
        if (rep % 3 == 1) n->computeOutput(r.vec(in), true);
        if (out >= 2 && rep % 2) { vector2D<float> x, y; for (int i = 0; i < 3; ++i) { x.push_back(r.vec(in)); V l(out, 0.0f); l[r.below(out)] = 1; y.push_back(l); } Data d(problem::classification, x, y); n->train(d, 2_ep, 1, 1); Wait w; n->evaluate(d, &w); }
        n->autoSaveWhenBetter = rep % 2; n->saveAs(path); std::unique_ptr<Net> m(&Net::loadFrom(path)); unlink(path.c_str());
        CHECK(*n == *m && *m == *n && !(*n != *m), "the loaded network is not equal to the saved one"); CHECK(weightsOf(*n) == weightsOf(*m), "weights");
        const float s1[] = {n->getGlobalClusteringRate(), n->getWeightedClusteringRate(), n->getF1Score(), n->getMeanAbsoluteError(), n->getRootMeanSquaredError(), n->getGlobalClusteringRateMax(), n->getWeightedClusteringRateMax(), n->getF1ScoreMax(), n->getMeanAbsoluteErrorMin(), n->getRootMeanSquaredErrorMin()};
        const float s2[] = {m->getGlobalClusteringRate(), m->getWeightedClusteringRate(), m->getF1Score(), m->getMeanAbsoluteError(), m->getRootMeanSquaredError(), m->getGlobalClusteringRateMax(), m->getWeightedClusteringRateMax(), m->getF1ScoreMax(), m->getMeanAbsoluteErrorMin(), m->getRootMeanSquaredErrorMin()}; for (int i = 0; i < 10; ++i) CHECK(s1[i] == s2[i], "statistic ", i, " is ", s2[i], " after loading, ", s1[i], " before");
        CHECK(static_cast<si::StatisticAnalysis&>(*n) == static_cast<si::StatisticAnalysis&>(*m), "counters of the statistics"); CHECK(n->getNumberOfTraining() == m->getNumberOfTraining(), "number of trainings"); CHECK(n->hasNan() == m->hasNan() && n->isTraining() == m->isTraining() && n->getCurrentEpoch() == m->getCurrentEpoch() && n->getCurrentIndex() == m->getCurrentIndex() && n->autoSaveFilePath == m->autoSaveFilePath && n->autoSaveWhenBetter == m->autoSaveWhenBetter && n->getNumberOfTrainingsBetweenTwoEvaluations() == m->getNumberOfTrainingsBetweenTwoEvaluations(), "state of the training"); CHECK(n->summary() == m->summary(), "summary");
        CHECK(n->getNumberOfInputs() == m->getNumberOfInputs() && n->getNumberOfOutputs() == m->getNumberOfOutputs() && n->getNumberOfParameters() == m->getNumberOfParameters() && n->getNumberOfNeurons() == m->getNumberOfNeurons(), "sizes");
        auto infer = [&](bool rs) { V x = r.vec(in); auto o1 = n->computeOutput(x, rs), o2 = m->computeOutput(x, rs); CHECK(o1 == o2, "outputs ", str(o1), " before and ", str(o2), " after loading"); };
        auto learn = [&](bool rs) { V x = r.vec(in), y = r.vec(out, 0, 1); n->trainOnce(x, y, rs); m->trainOnce(x, y, rs); CHECK(weightsOf(*n) == weightsOf(*m), "training continues differently after loading (reset ", rs, ")"); CHECK(*n == *m, "not equal after one more training"); };
        if (rep % 2 == 0) { infer(false); infer(true); } if (drop && steps == 0) continue; learn(false); learn(false); if (!drop) { learn(true); learn(false); learn(true); } infer(false); infer(true);
    }
    { auto n = newNet({1}, {FullyConnected(1, activation::identity)}); ctxmsg = "network with an invalid output"; ++CASES; n->outputNan = true; n->saveAs(path); std::unique_ptr<Net> m(&Net::loadFrom(path)); unlink(path.c_str()); CHECK(m->hasNan(), "the loaded network does not report the invalid output"); }
    { auto n = newNet({1}, {FullyConnected(1)}); n->isIdle = false; CHECK(throws([&] { n->saveAs(path); }), "saving during a training is accepted"); n->isIdle = true; }
    unlink(path.c_str()); rmdir(dir); (void)sizeof(Clean);
    return finish();
}
