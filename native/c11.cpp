#include "h.hpp"
using namespace snn;
int main()
{
    Rng r(seed());
    for (float rate : {0.0f, 0.1f, 0.5f, 0.9f, 0.99f}) for (int kind = 0; kind < 6; ++kind) for (int rep = 0; rep < (thorough() ? 60 : 12); ++rep)
    {
        int n = r.range(1, 12), f = r.range(1, 4), k = r.range(1, 3); Models l, p; VI in{3};
        auto mk = [&](auto... o) -> LayerModel { switch (kind) { case 0: return FullyConnected(n, activation::identity, o...); case 1: return Recurrence(n, activation::identity, o...); case 2: return GruLayer(n, o...);
            case 3: return Convolution(f, k, activation::identity, o...); case 4: return LocallyConnected(f, k, activation::identity, o...); default: return Convolution(f, k, activation::tanh, o...); } };
        if (kind >= 3) in = kind == 5 ? VI{2, r.range(k, 6), r.range(k, 6)} : VI{2, r.range(k, 9)};
        ctxmsg = S("dropout rate ", rate, " kind ", kind, " input ", str(in), " neurons ", n, " filters ", f, " kernel ", k); ++CASES;
        auto a = newNet(in, {mk(Dropout(rate))}, 0.1f), b = newNet(in, {mk()}, 0.1f); auto &A = *a->layers[0], &B = *b->layers[0]; Rng r1(rep), r2(rep); randomize(A, r1); randomize(B, r2);
        std::vector<char> mask; const bool temporal = kind == 1 || kind == 2;
        for (int t = 0; t < 6; ++t)
        {
            auto x = r.vec(prod(in), 0.2f, 1); bool reset = t == 0 || t == 3;
            for (auto* o : {a.get(), b.get()}) std::dynamic_pointer_cast<si::StochasticGradientDescent>(o->optimizer)->learningRate = 0;
            auto oa = A.outputForTraining(x, reset), ob = B.outputForTraining(x, reset); CHECK(oa.size() == ob.size(), "size");
            std::vector<char> m(oa.size()); for (size_t i = 0; i < oa.size(); ++i) { CHECK(oa[i] == 0 || oa[i] == ob[i], "output ", i, " is ", oa[i], ", neither zero nor ", ob[i]); m[i] = oa[i] != 0 || ob[i] == 0; if (rate == 0) CHECK(oa[i] == ob[i], "rate zero changes output ", i); }
            if (!reset && t > 0) CHECK(m == mask, "kept outputs were redrawn without a temporal reset");
            mask = m;
            if (t == 2) { auto ia = A.output(x, false), ib = B.output(x, false); for (size_t i = 0; i < ia.size(); ++i) CHECK(near(ia[i], ib[i] * (1 - (double)rate), 1e-5), "inference output ", i, " is ", ia[i], ", expected ", ib[i] * (1 - (double)rate)); if (temporal) { (void)0; } }
            V e = r.vec(oa.size(), 0.5f, 1.5f), ea = e, eb = e; for (size_t i = 0; i < eb.size(); ++i) if (!mask[i]) eb[i] = 0;
            auto ga = A.backOutput(ea), gb = B.backOutput(eb);
            for (size_t i = 0; i < ea.size(); ++i) CHECK(ea[i] == (mask[i] ? e[i] : 0), "error of output ", i, " is ", ea[i], " although the output was ", mask[i] ? "kept" : "dropped");
            for (size_t i = 0; i < ga.size(); ++i) CHECK(near(ga[i], gb[i], 1e-5), "back propagated error ", i);
            V e2 = e; if (t == 4) { A.outputForTraining(x, false); B.outputForTraining(x, false); A.train(e2); for (size_t i = 0; i < e2.size(); ++i) CHECK(e2[i] == (mask[i] ? e[i] : 0), "error of output ", i, " in the first layer is ", e2[i]); B.train(eb); }
        }
    }
    // the kept share follows the rate, and every output is redrawn at a reset
    for (float rate : {0.0f, 0.2f, 0.5f, 0.8f})
    {
        ctxmsg = S("kept share at rate ", rate); ++CASES; auto a = newNet({1}, {FullyConnected(4000, activation::identity, Dropout(rate))}); auto& A = *a->layers[0];
        for (int i = 0; i < 4000; ++i) sn(A, i)->setWeights({1, 1});
        for (int t = 0; t < 2; ++t) { auto o = A.outputForTraining({1}, true); double kept = 0; for (float v : o) kept += v != 0; CHECK(std::abs(kept / 4000 - (1 - rate)) < 0.06, "share of kept outputs is ", kept / 4000); }
    }
    for (int rep = 0; rep < 20; ++rep)
    {
        ctxmsg = "class Dropout"; ++CASES; auto a = newNet({2}, {FullyConnected(6, activation::identity)}); si::Dropout d(0.5f, a->layers[0].get());
        V v(6, 1.0f); d.applyAfterOutputForTraining(v, false); V e(6, 2.0f); d.applyBeforeBackpropagation(e); for (int i = 0; i < 6; ++i) CHECK(e[i] == 2 * v[i], "initial mask");
        V big(11, 1.0f); d.applyAfterOutputForTraining(big, false); V eb(11, 1.0f); d.applyBeforeBackpropagation(eb); CHECK(big == eb, "mask after a change of size"); V big2(11, 1.0f); d.applyAfterOutputForTraining(big2, false); CHECK(big == big2, "mask redrawn without reset");
    }
    return finish();
}
