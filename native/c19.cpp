#include "h.hpp"
using namespace snn;
// Spies take the place of the layer and of the temporal part of the data; everything between them is the code under test.
struct Ev { int kind; V in; bool reset; V err; }; // 0 training forward, 1 train, 2 inference, 3 shuffle
static std::vector<Ev> LOG;
struct SpyLayer final : si::BaseLayer
{
    int n, m; V outs; int calls = 0, dieAt = -1; SpyLayer(int n, int m) : n(n), m(m), outs(m, 0.25f) {}
    std::unique_ptr<BaseLayer> clone(std::shared_ptr<si::NeuralNetworkOptimizer>) const override { return nullptr; }
    void* getNeuron(int) override { return nullptr; } float getAverageOfAbsNeuronWeights() const override { return 0; } float getAverageOfSquareNeuronWeights() const override { return 0; }
    int getNumberOfInputs() const override { return n; } int getNumberOfNeurons() const override { return m; } int getNumberOfParameters() const override { return 0; }
    VI getShapeOfInput() const override { return {n}; } VI getShapeOfOutput() const override { return {m}; }
    V output(const V& x, bool r) override { LOG.push_back({2, x, r, {}}); return outs; }
    V outputForTraining(const V& x, bool r) override { LOG.push_back({0, x, r, {}}); return outs; }
    V backOutput(V&) override { return V(n); } void train(V& e) override { LOG.push_back({1, {}, false, e}); }
    int isValid() const override { return 0; } std::string summary() const override { return ""; } bool operator==(const BaseLayer&) const override { return false; } bool operator!=(const BaseLayer&) const override { return true; }
};
struct SpyTemporal final : si::TemporalComposite
{
    std::vector<bool> first, learn, tfirst, eval; Rng r; SpyTemporal(Set* s, uint64_t k) : TemporalComposite(s), r(k) {}
    void shuffle() override { auto& o = sets[training].shuffledIndexes; for (size_t i = o.size(); i-- > 1;) std::swap(o[i], o[r.below((int)i + 1)]); Ev e{3, {}, false, {}}; for (int i : o) e.in.push_back((float)i); LOG.push_back(e); }
    void unshuffle() override {} bool isFirstTrainingDataOfTemporalSequence(int i) const override { return first.at(i); } bool isFirstTestingDataOfTemporalSequence(int i) const override { return tfirst.at(i); }
    bool needToTrainOnTrainingData(int i) const override { return learn.at(i); } bool needToEvaluateOnTestingData(int i) const override { return eval.at(i); } int isValid() override { return 0; }
};
int main()
{
    Rng r(seed());
    for (int rep = 0; rep < (thorough() ? 6000 : 800); ++rep)
    {
        int n = r.range(1, 13), tn = r.range(1, 5), b = r.range(1, n), d = 2, l = 2, epochs = r.range(1, 4), freq = r.range(0, 3), kind = r.below(3); vector2D<float> in, lab, tin, tlab; ++CASES;
        auto label = [&](int i) { V y(l, 0.0f); if (kind == 0) y[i % 2] = 1; else y = {(float)i / 64, 1 - (float)i / 32}; return y; };
        for (int i = 0; i < n; ++i) { in.push_back({(float)i, (float)(i * i)}); lab.push_back(label(i)); } for (int i = 0; i < tn; ++i) { tin.push_back({(float)(1000 + i), 0}); tlab.push_back(label(i)); }
        Data data(kind == 0 ? problem::classification : kind == 1 ? problem::multipleClassification : problem::regression, in, lab, tin, tlab); auto sp = std::make_unique<SpyTemporal>(data.sets, rep + 1); auto* t = sp.get();
        for (int i = 0; i < n; ++i) { t->first.push_back(r.below(2)); t->learn.push_back(r.below(4) != 0); } for (int i = 0; i < tn; ++i) { t->tfirst.push_back(r.below(2)); t->eval.push_back(r.below(2)); } data.temporalComposite = std::move(sp);
        auto net = newNet({d}, {FullyConnected(l)}); auto layer = std::make_unique<SpyLayer>(d, l); V outs = layer->outs; net->layers[0] = std::move(layer);
        LOG.clear(); ctxmsg = S(n, " data, batch size ", b, ", ", epochs, " epochs, evaluation every ", freq); int before = (int)net->getNumberOfTraining();
        net->train(data, operator""_ep((unsigned long long)epochs), b, freq); size_t p = 0; int learnt = 0;
        auto evaluation = [&](int e) { for (int i = 0; i < tn; ++i) { CHECK(p < LOG.size() && LOG[p].kind == 2 && LOG[p].in == tin[i], "epoch ", e, ": testing datum ", i, " is not evaluated in its turn"); CHECK(LOG[p].reset == t->tfirst[i], "epoch ", e, ": reset flag of testing datum ", i); ++p; } };
        if (freq > 0) evaluation(0);
        for (int e = 1; e <= epochs; ++e)
        {
            CHECK(p < LOG.size() && LOG[p].kind == 3, "epoch ", e, " does not begin with a shuffle"); V ord = LOG[p++].in;
            for (int i = 0; i + b <= n; i += b)
            {
                CHECK(p < LOG.size() && LOG[p].kind == 0, "epoch ", e, ": batch at ", i, " is not read"); V mx(d, 0.0f), my(l, 0.0f); for (int j = 0; j < b; ++j) { for (int c = 0; c < d; ++c) mx[c] += in[(int)ord[i + j]][c]; for (int c = 0; c < l; ++c) my[c] += lab[(int)ord[i + j]][c]; }
                for (int c = 0; c < d; ++c) CHECK(near(LOG[p].in[c], mx[c] / b, 1e-5), "epoch ", e, ": the batch read in place of the one at ", i, " is ", str(LOG[p].in)); CHECK(LOG[p].reset == t->first[i], "epoch ", e, ": reset flag of index ", i); ++p;
                if (t->learn[i]) { CHECK(p < LOG.size() && LOG[p].kind == 1, "epoch ", e, ": no learning at ", i, " although it is flagged"); for (int c = 0; c < l; ++c) CHECK(near(LOG[p].err[c] / 2 + outs[c], my[c] / b, 1e-5), "epoch ", e, ": expected output of the batch at ", i); ++p; ++learnt; }
                else CHECK(p >= LOG.size() || LOG[p].kind != 1, "epoch ", e, ": learning at ", i, " although it is not flagged");
            }
            if (freq > 0 && e % freq == 0) evaluation(e);
        }
        CHECK(p == LOG.size(), "more happens after the last epoch: event of kind ", p < LOG.size() ? LOG[p].kind : -1); CHECK(net->getNumberOfTraining() - before == learnt, "number of trainings"); CHECK(!net->isTraining() && net->getCurrentIndex() == 0 && net->isIdle && !net->wantToStopTraining, "not idle at index zero after the training");
        LOG.clear(); p = 0; Wait w; net->evaluate(data, &w); evaluation(-1); CHECK(p == LOG.size(), "evaluation reads more than the test set");
    }
    // with a real network: only data flagged for learning changes weights
    for (int rep = 0; rep < 40; ++rep)
    {
        vector2D<float> in{{1, 2}, {3, 4}}, lab{{1, 0}, {0, 1}}; Data data(problem::classification, in, lab); auto sp = std::make_unique<SpyTemporal>(data.sets, 1); sp->first = {true, false}; sp->tfirst = {true, false}; sp->learn = {false, false}; sp->eval = {true, true}; data.temporalComposite = std::move(sp); ++CASES;
        auto net = newNet({2}, {FullyConnected(3), FullyConnected(2)}); auto w = weightsOf(*net); net->train(data, 3_ep, 1, 1); CHECK(w == weightsOf(*net) && net->getNumberOfTraining() == 0, "data that is not flagged for learning changed weights"); CHECK(!net->isTraining() && net->getCurrentIndex() == 0, "idle");
    }
    return finish();
}
