#include "h.hpp"
using namespace snn;
int main()
{
    Rng r(seed()); auto archs = allArchs(true);
    for (int rep = 0; rep < (thorough() ? 30 : 4); ++rep) for (auto& a : archs)
    {
        ctxmsg = S(a.name, " repetition ", rep); ++CASES; auto n1 = build(a, 0.05f, rep % 2 ? 0.5f : 0.0f); int in = prod(a.in), out = n1->getNumberOfOutputs();
        auto step = [&](Net& n, Rng& q) { n.trainOnce(q.vec(in), q.vec(out, 0, 1), true); };
        { Rng q(rep + 5); for (int i = 0; i < 3; ++i) step(*n1, q); }
        if (rep % 2) { V x = r.vec(in); n1->computeOutput(x, true); }
        auto n2 = std::make_unique<Net>(*n1); CHECK(*n1 == *n2 && *n2 == *n1 && !(*n1 != *n2), "the copy is not equal to its original"); CHECK(n1->getNumberOfTraining() == n2->getNumberOfTraining() && n1->hasNan() == n2->hasNan() && n1->autoSaveFilePath == n2->autoSaveFilePath && n1->autoSaveWhenBetter == n2->autoSaveWhenBetter, "settings of the copy");
        CHECK(weightsOf(*n1) == weightsOf(*n2), "weights of the copy");
        for (int q = 0; q < 3; ++q) { V x = r.vec(in); bool reset = q != 1; auto o1 = n1->computeOutput(x, reset), o2 = n2->computeOutput(x, reset); CHECK(o1 == o2, "outputs ", str(o1), " and ", str(o2), " of the copy"); }
        for (int side = 0; side < 2; ++side)
        {
            auto& x = side ? *n2 : *n1; auto& y = side ? *n1 : *n2; auto keep = std::make_unique<Net>(y); auto w = weightsOf(y); auto oy = std::dynamic_pointer_cast<si::StochasticGradientDescent>(y.optimizer); float lr = oy->learningRate, mo = oy->momentum; auto nt = y.getNumberOfTraining();
            Rng q(side + 77 + rep); for (int i = 0; i < 3; ++i) step(x, q); std::dynamic_pointer_cast<si::StochasticGradientDescent>(x.optimizer)->learningRate *= 2; std::dynamic_pointer_cast<si::StochasticGradientDescent>(x.optimizer)->momentum += 0.25f; x.computeOutput(r.vec(in), false); x.autoSaveFilePath = S("other", side);
            for (auto& l : x.layers) for (int i = 0; i < l->getNumberOfNeurons(); ++i) if (!isRec(l.get()) && !isGru(l.get())) { auto ww = sn(*l, i)->getWeights(); ww[0] += 1; sn(*l, i)->setWeights(ww); }
            CHECK(weightsOf(y) == w && oy->learningRate == lr && oy->momentum == mo && y.getNumberOfTraining() == nt && y == *keep, side ? "changing the copy changed the original" : "changing the original changed the copy");
        }
        // both continue in the same way from the same state, each with its own optimizer
        auto c1 = std::make_unique<Net>(*n1); auto c2 = std::make_unique<Net>(*c1); auto s1 = std::dynamic_pointer_cast<si::StochasticGradientDescent>(c1->optimizer), s2 = std::dynamic_pointer_cast<si::StochasticGradientDescent>(c2->optimizer); CHECK(s1 != s2, "the copy shares the optimizer");
        s1->learningRate = 0; s1->momentum = 0; auto w1 = weightsOf(*c1), w2 = weightsOf(*c2); Rng q(9); bool drop = a.name.find("dropout") != std::string::npos || a.name == "several optimizers"; for (int i = 0; i < 3; ++i) { step(*c1, q); step(*c2, q); }
        CHECK(weightsOf(*c1) == w1, "a layer of the original trains with another optimizer than its network's"); if (!drop && a.name.find("l1d") == std::string::npos) for (size_t l = 0; l < c2->layers.size(); ++l) if (!w2[l].empty() && l + 1 == c2->layers.size()) CHECK(weightsOf(*c2->layers[l]) != w2[l], "layer ", l, " of the copy does not train with the optimizer of the copy");
        for (auto& l : c2->layers) for (int i = 0; i < l->getNumberOfNeurons(); ++i) { if (isRec(l.get())) CHECK(rn(*l, i)->optimizer == c2->optimizer, "optimizer of a neuron of the copy"); else if (isGru(l.get())) { auto g = gn(*l, i); for (auto* z : {&g->resetGate, &g->updateGate, &g->outputGate}) CHECK(z->optimizer == c2->optimizer, "optimizer of a gate of the copy"); } else CHECK(sn(*l, i)->optimizer == c2->optimizer, "optimizer of a neuron of the copy"); }
        std::unique_ptr<Net> c3; { auto tmp = build(a); c3 = std::make_unique<Net>(*tmp); } c3->trainOnce(r.vec(in), r.vec(out), true); c3->computeOutput(r.vec(in), true); // the original is gone
    }
    return finish();
}
