#include "h.hpp"
using namespace snn;
int main()
{
    Rng r(seed());
    std::vector<std::pair<VI, LayerModel>> kinds{{{3}, FullyConnected(4, activation::tanh)}, {{3}, Recurrence(3)}, {{2, 5}, Convolution(3, 2)}, {{6}, LocallyConnected(2, 3)}, {{1}, FullyConnected(1)}, {{2, 4, 4}, Convolution(2, 2)}};
    for (int rep = 0; rep < (thorough() ? 400 : 40); ++rep) for (auto& [in, model] : kinds)
    {
        int k = r.range(0, 4); std::vector<LayerOptimizerModel> os; std::string what; for (int i = 0; i < k; ++i) { float v = r.below(8) ? r.real(-1, 2) : 0.0f; switch (r.below(3)) { case 0: os.push_back(ErrorMultiplier(v)); what += S(" multiply ", v); break; case 1: os.push_back(L1Regularization(v)); what += S(" L1 ", v); break; default: os.push_back(L2Regularization(v)); what += S(" L2 ", v); } }
        LayerModel m = model; m.optimizers = os; ++CASES; auto a = newNet(in, {m}), b = newNet(in, {model}); for (auto* z : {a.get(), b.get()}) std::dynamic_pointer_cast<si::StochasticGradientDescent>(z->optimizer)->learningRate = 0; auto &A = *a->layers[0], &B = *b->layers[0]; Rng q1(rep + 3), q2(rep + 3); randomize(A, q1); randomize(B, q2); ctxmsg = S("optimizers", what, ", input ", str(in), ", layer type ", (int)model.type);
        V x = r.vec(prod(in)); bool reset = true; auto o1 = A.output(x, reset), o2 = B.output(x, reset); CHECK(o1 == o2, "inference outputs are touched"); o1 = A.outputForTraining(x, reset); o2 = B.outputForTraining(x, reset); CHECK(o1 == o2, "training outputs are touched");
        V e = r.vec(o1.size()), want = e; double l1 = 0, l2 = 0; for (auto& w : weightsOf(A)) for (float v : w) { l1 += std::abs((double)v); l2 += (double)v * v; } l1 /= A.getNumberOfNeurons(); l2 /= A.getNumberOfNeurons();
        CHECK(near(A.getAverageOfAbsNeuronWeights(), l1, 1e-5) && near(A.getAverageOfSquareNeuronWeights(), l2, 1e-5), "averages of weights ", A.getAverageOfAbsNeuronWeights(), " and ", A.getAverageOfSquareNeuronWeights(), ", expected ", l1, " and ", l2);
        VD d(e.begin(), e.end()); for (auto& o : os) for (auto& v : d) { if (o.type == layerOptimizerType::errorMultiplier) v *= o.value; else if (o.type == layerOptimizerType::l1Regularization) v += o.value * l1; else v += o.value * l2; } for (size_t i = 0; i < d.size(); ++i) want[i] = (float)d[i];
        V e1 = e, e2 = want; auto g1 = A.backOutput(e1), g2 = B.backOutput(e2); for (size_t i = 0; i < d.size(); ++i) CHECK(near(e1[i], d[i], 1e-4), "error ", i, " of ", e[i], " becomes ", e1[i], ", expected ", d[i]); for (size_t i = 0; i < g1.size(); ++i) CHECK(near(g1[i], g2[i], 1e-3), "back propagated error ", i);
        V e3 = e; A.outputForTraining(x, true); A.train(e3); for (size_t i = 0; i < d.size(); ++i) CHECK(near(e3[i], d[i], 1e-4), "error ", i, " in the first layer becomes ", e3[i], ", expected ", d[i]);
    }
    auto net = newNet({2}, {FullyConnected(3)}); for (float v : {0.0f, 0.1f, 0.7f}) { std::vector<LayerOptimizerModel> ms{Dropout(v), L1Regularization(v), L2Regularization(v), ErrorMultiplier(v), Softmax()}; auto mk = [&](int i) { return si::LayerOptimizerFactory::build(ms[i], net->layers[0].get()); }; ctxmsg = "factory"; ++CASES;
        CHECK(dynamic_cast<si::Dropout*>(mk(0).get()) && dynamic_cast<si::L1Regularization*>(mk(1).get()) && dynamic_cast<si::L2Regularization*>(mk(2).get()) && dynamic_cast<si::ErrorMultiplier*>(mk(3).get()) && dynamic_cast<si::Softmax*>(mk(4).get()), "kind"); V e{1, 1, 1}; mk(3)->applyBeforeBackpropagation(e); CHECK(e == V(3, v), "factor"); V o{1, 2, 3}, o2 = o; mk(0)->applyAfterOutputForTesting(o); for (int i = 0; i < 3; ++i) CHECK(near(o[i], (1 - v) * o2[i], 1e-6), "dropout value"); }
    LayerOptimizerModel bad{(layerOptimizerType)77, 0}; CHECK(throws([&] { si::LayerOptimizerFactory::build(bad, net->layers[0].get()); }), "an unknown optimizer is accepted");
    return finish();
}
