#include "h.hpp"
using namespace snn;
template <class N> static N mk(int in, int b, int w, float bias, activation a, std::shared_ptr<si::NeuralNetworkOptimizer> o)
{
    NeuronModel m{}; m.numberOfInputs = in; m.batchSize = b; m.numberOfWeights = w; m.bias = bias; m.activationFunction = a; return N(m, o);
}
int main()
{
    Rng r(seed());
    for (int in = 1; in <= 6; ++in) for (int b = 1; b <= 4; ++b) for (float lr : {0.0f, 0.1f, 0.7f}) for (float mom : {0.0f, 0.5f, 0.95f})
    {
        ctxmsg = S("simple neuron inputs ", in, " batch ", b, " rate ", lr, " momentum ", mom); ++CASES;
        auto opt = std::make_shared<si::StochasticGradientDescent>(lr, mom);
        const float bias = r.real(-1.5f, 1.5f);
        auto n = mk<si::SimpleNeuron>(in, b, in + 1, bias, activation::tanh, opt); n.setWeights(r.vec(in + 1));
        std::vector<V> xs; std::vector<VD> deltas;
        for (int pass = 0; pass < 4; ++pass)
        {
            for (int p = 0; p < b; ++p) { xs.push_back(r.vec(in)); (void)n.output(xs.back()); }
            for (int p = 0; p < b; ++p)
            {
                const float e = r.real(-2, 2); const auto before = n; auto w0 = n.getWeights(); const size_t step = deltas.size();
                opt->updateWeights(n, e); auto w1 = n.getWeights(); VD d(in + 1);
                for (int w = 0; w <= in; ++w)
                {
                    double x = w < in ? xs[step][w] : bias, prev = step >= (size_t)b ? deltas[step - b][w] : 0;
                    d[w] = (double)lr / b * e * x + (double)mom * prev;
                    CHECK(near((double)w1[w] - w0[w], d[w], 2e-5), "update ", step, " changes weight ", w, " by ", (double)w1[w] - w0[w], ", expected ", d[w], " (input ", x, ", error ", e, ", earlier change ", prev, ")");
                    if (lr == 0 && mom == 0) CHECK(w1[w] == w0[w], "weight changed with rate and momentum zero");
                }
                deltas.push_back(d);
                CHECK(n.bias == before.bias && n.errors == before.errors && n.sum == before.sum && n.numberOfInputs == before.numberOfInputs && n.batchSize == before.batchSize && n.lastInputs.queue == before.lastInputs.queue, "update changed more than weights");
                CHECK(opt->learningRate == lr && opt->momentum == mom, "update changed the optimizer");
            }
        }
        ctxmsg = S("recurrent neuron inputs ", in, " rate ", lr, " momentum ", mom); ++CASES;
        auto q = mk<si::RecurrentNeuron>(in, 1, in + 2, bias, activation::tanh, opt); q.setWeights(r.vec(in + 2));
        VD prev(in + 2, 0.0);
        for (int t = 0; t < 5; ++t)
        {
            auto x = r.vec(in); (void)q.output(x, t == 0 || t == 3); const float e = r.real(-2, 2); auto before = q; auto w0 = q.getWeights();
            opt->updateWeights(q, e); auto w1 = q.getWeights();
            if (lr == 0 && mom == 0) CHECK(w0 == w1, "weight changed with rate and momentum zero");
            VD d(in + 2);
            for (int w = 0; w < in; ++w)
            {
                d[w] = (double)lr * e * x[w] + (double)mom * prev[w];
                CHECK(near((double)w1[w] - w0[w], d[w], 2e-5), "update ", t, " changes input weight ", w, " by ", (double)w1[w] - w0[w], ", expected ", d[w]);
            }
            const double dr = actd(activation::tanh, before.previousSum);
            // as it should be: recurrent weight from the recurrent error, last weight from the bias
            const double rec = e + before.recurrentError * dr * w0[in];
            const double sR = lr * rec * before.previousOutput + mom * prev[in], sB = lr * e * bias + mom * prev[in + 1];
            // as it is: both steps land on the recurrent weight, the bias weight never moves
            const double kB = lr * e * bias + mom * prev[in], rec2 = e + before.recurrentError * dr * (w0[in] + kB), kR = lr * rec2 * before.previousOutput + mom * prev[in];
            const double gR = (double)w1[in] - w0[in], gB = (double)w1[in + 1] - w0[in + 1];
            if (near(gR, sR, 1e-4) && near(gB, sB, 1e-4)) { d[in] = sR; d[in + 1] = sB; }
            else if (near(gR, kB + kR, 1e-4) && gB == 0) { d[in] = kR; d[in + 1] = 0; known("C07-recurrent-bias-step", "a recurrent neuron applies the step of its bias weight to its recurrent weight and never changes its bias weight"); }
            else failed(S("update ", t, " changes recurrent weight by ", gR, " (expected ", sR, ") and bias weight by ", gB, " (expected ", sB, ")"));
            prev = d;
            CHECK(q.bias == before.bias && q.errors == before.errors && q.sum == before.sum && q.lastOutput == before.lastOutput && q.previousOutput == before.previousOutput && q.previousSum == before.previousSum && q.lastInputs.queue == before.lastInputs.queue, "update changed more than weights");
        }
    }
    // rate and momentum zero: no weight of any layer changes
    for (auto& a : allArchs(true))
    {
        ctxmsg = "rate and momentum zero, " + a.name; ++CASES; auto net = build(a, 0.1f, 0.0f); randomize(*net, r);
        std::dynamic_pointer_cast<si::StochasticGradientDescent>(net->optimizer)->learningRate = 0; auto w = weightsOf(*net);
        for (int t = 0; t < 4; ++t) net->trainOnce(r.vec(prod(a.in)), r.vec(net->getNumberOfOutputs()), t % 2 == 0);
        CHECK(w == weightsOf(*net), "a weight changed"); CHECK(net->getNumberOfTraining() == 4, "number of trainings");
    }
    // the network hands its learning rate and momentum to the step
    for (float lr : {0.01f, 0.2f}) for (float mom : {0.0f, 0.9f})
    {
        ctxmsg = S("dense network rate ", lr, " momentum ", mom); ++CASES; auto net = newNet({3}, {FullyConnected(2, activation::identity)}, lr, mom); randomize(*net, r); VD prev(8, 0.0);
        for (int t = 0; t < 5; ++t)
        {
            auto w0 = weightsOf(*net); auto x = r.vec(3), y = r.vec(2); auto o = net->computeOutput(x); net->trainOnce(x, y, true); auto w1 = weightsOf(*net);
            for (int n = 0; n < 2; ++n) for (int w = 0; w < 4; ++w)
            {
                double e = 2 * ((double)y[n] - o[n]), want = lr * e * (w < 3 ? x[w] : sn(*net->layers[0], n)->bias) + mom * prev[n * 4 + w], got = (double)w1[0][n][w] - w0[0][n][w];
                CHECK(near(got, want, 1e-4), "step ", t, " neuron ", n, " weight ", w, " changes by ", got, ", expected ", want); prev[n * 4 + w] = want;
            }
        }
    }
    return finish();
}
