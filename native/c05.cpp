#include "h.hpp"
using namespace snn;
static double gate(si::RecurrentNeuron& n, const V& x, double last, activation a)
{
    auto w = n.getWeights(); double s = 0;
    for (size_t i = 0; i < x.size(); ++i) s += (double)x[i] * w[i];
    return actf(a, s + last * w[x.size()] + (double)n.bias * w[x.size() + 1]);
}
int main()
{
    Rng r(seed());
    for (auto act : ALLACT) for (int in = 1; in <= 6; ++in) for (int n = 1; n <= 5; ++n)
    {
        ctxmsg = S("dense layer inputs ", in, " neurons ", n, " activation ", (int)act); ++CASES;
        auto net = newNet({in}, {FullyConnected(n, act)}); auto& L = *net->layers[0]; randomize(L, r);
        for (int i = 0; i < n; ++i) sn(L, i)->bias = r.real(-1, 1);
        for (int t = 0; t < 3; ++t)
        {
            auto x = r.vec(in, -2, 2); auto xc = x; auto o = t == 1 ? L.outputForTraining(x, t == 0) : L.output(x, t == 0);
            CHECK((int)o.size() == n && x == xc, "size of outputs");
            for (int i = 0; i < n; ++i)
            {
                auto w = sn(L, i)->getWeights(); double s = (double)sn(L, i)->bias * w.back();
                for (int k = 0; k < in; ++k) s += (double)x[k] * w[k];
                CHECK(near(o[i], actf(act, s)), "output ", i, " is ", o[i], ", expected ", actf(act, s), " for input ", str(x), " weights ", str(w));
            }
        }
        ctxmsg = S("recurrent layer inputs ", in, " neurons ", n, " activation ", (int)act); ++CASES;
        auto rnet = newNet({in}, {Recurrence(n, act)}); auto& R = *rnet->layers[0]; randomize(R, r);
        for (int i = 0; i < n; ++i) rn(R, i)->bias = r.real(-1, 1);
        VD last(n, 0.0);
        for (int t = 0; t < 6; ++t)
        {
            auto x = r.vec(in, -1, 1); auto o = t & 1 ? R.outputForTraining(x, t == 0) : R.output(x, t == 0);
            CHECK((int)o.size() == n, "size of outputs");
            for (int i = 0; i < n; ++i)
            {
                double e = gate(*rn(R, i), x, last[i], act);
                CHECK(near(o[i], e, 5e-4), "step ", t, " output ", i, " is ", o[i], ", expected ", e);
                last[i] = o[i];
            }
        }
        if (act != activation::tanh) continue;
        ctxmsg = S("gated layer inputs ", in, " neurons ", n); ++CASES;
        auto gnet = newNet({in}, {GruLayer(n)}); auto& G = *gnet->layers[0]; randomize(G, r);
        VD prev(n, 0.0), lg(n, 0.0);
        for (int i = 0; i < n; ++i) for (auto* g : {&gn(G, i)->resetGate, &gn(G, i)->updateGate, &gn(G, i)->outputGate}) g->bias = r.real(-1, 1);
        for (int t = 0; t < 5; ++t)
        {
            auto x = r.vec(in, -1, 1);
            std::vector<float> stored(n), lr(n), lu(n), lo(n);
            for (int i = 0; i < n; ++i) { auto* g = gn(G, i); stored[i] = g->previousOutput; lr[i] = g->resetGate.lastOutput; lu[i] = g->updateGate.lastOutput; lo[i] = g->outputGate.lastOutput; }
            auto o = G.output(x, false);
            CHECK((int)o.size() == n, "size of outputs");
            for (int i = 0; i < n; ++i)
            {
                auto* g = gn(G, i);
                double rg = gate(g->resetGate, x, lr[i], activation::sigmoid), u = gate(g->updateGate, x, lu[i], activation::sigmoid), c = gate(g->outputGate, x, lo[i] * rg, activation::tanh);
                double e = (1 - u) * stored[i] + u * c;
                CHECK(near(o[i], e, 5e-4), "step ", t, " output ", i, " is ", o[i], ", expected ", e, " from the stored state");
                CHECK(near(lr[i], lg[i]) && near(lu[i], lg[i]) && near(lo[i], lg[i]), "step ", t, " gates of unit ", i, " do not use the last output");
                if (t > 0 && !near(stored[i], lg[i])) known("C05-gru-previous-output", "a gated unit never stores its output as previous output, so from the second step on it mixes the candidate with zero instead of its previous output");
                else if (t == 0) CHECK(stored[i] == 0, "first step starts from ", stored[i]);
                if (t > 0 && stored[i] != 0 && !near(stored[i], lg[i])) failed("previous output is neither zero nor the last output");
                lg[i] = o[i];
            }
        }
    }
    for (auto& a : allArchs(true))
    {
        ctxmsg = "network " + a.name; ++CASES;
        auto net = build(a); randomize(*net, r);
        auto other = std::make_unique<Net>(*net);
        for (int t = 0; t < 4; ++t)
        {
            auto x = r.vec(prod(a.in)); auto o = net->computeOutput(x, t == 0); auto y = x;
            for (auto& l : other->layers) y = l->output(y, t == 0);
            CHECK(o.size() == y.size(), "size"); for (size_t i = 0; i < o.size(); ++i) CHECK(near(o[i], y[i], 1e-5), "network output ", i, " is ", o[i], ", its layers one after the other give ", y[i]);
            auto x2 = r.vec(prod(a.in));
            if (a.name.find("dropout") == std::string::npos && a.name.find("several") == std::string::npos)
            {
                auto o2 = net->outputForTraining(x2, t == 0); y = x2; for (auto& l : other->layers) y = l->output(y, t == 0);
                CHECK(o2.size() == y.size(), "size"); for (size_t i = 0; i < o2.size(); ++i) CHECK(near(o2[i], y[i], 1e-5), "network training output ", i);
            }
        }
    }
    return finish();
}
