#include "h.hpp"
using namespace snn;
static double sig(double x) { return 1 / (1 + std::exp(-x)); }
static double gate(si::RecurrentNeuron& n, const V& x, double last)
{
    auto w = n.getWeights(); double s = 0; for (size_t i = 0; i < x.size(); ++i) s += (double)x[i] * w[i];
    return s + last * w[x.size()] + (double)n.bias * w[x.size() + 1];
}
int main()
{
    Rng r(seed());
    for (int gru = 0; gru < 2; ++gru) for (int in = 1; in <= 4; ++in) for (int n = 1; n <= 4; ++n) for (int hist = 0; hist <= 5; ++hist) for (int mode = 0; mode < 4; ++mode)
    {
        ctxmsg = S(gru ? "gated" : "recurrent", " layer inputs ", in, " neurons ", n, " history of ", hist, " steps mode ", mode); ++CASES;
        auto net = newNet({in}, {gru ? GruLayer(n) : Recurrence(n)}, 0.1f, 0.3f); auto& L = *net->layers[0]; randomize(L, r);
        const bool zero = mode == 3;
        auto zap = [&](si::RecurrentNeuron& x) { auto w = x.getWeights(); w[in] = 0; x.setWeights(w); };
        if (zero) for (int i = 0; i < n; ++i) { if (gru) { zap(gn(L, i)->resetGate); zap(gn(L, i)->updateGate); zap(gn(L, i)->outputGate); } else zap(*rn(L, i)); }
        Net fresh(*net);
        for (int t = 0; t < hist; ++t)
        {
            auto x = r.vec(in);
            if (mode == 1) { V e = r.vec(n); auto o = L.outputForTraining(x, t == 2); (void)o; L.train(e); } else (void)L.output(x, t == 0 && mode == 2);
        }
        if (mode == 1) for (int i = 0; i < n; ++i) { if (gru) { fresh.layers[0]->getNeuron(i); auto *a = gn(L, i), *b = gn(*fresh.layers[0], i); b->resetGate.setWeights(a->resetGate.getWeights()); b->updateGate.setWeights(a->updateGate.getWeights()); b->outputGate.setWeights(a->outputGate.getWeights()); } else rn(*fresh.layers[0], i)->setWeights(rn(L, i)->getWeights()); }
        for (int t = 0; t < 2; ++t)
        {
            auto x = r.vec(in); std::vector<double> stale(n), staleKeep(n);
            for (int i = 0; i < n; ++i)
            {
                if (!gru) stale[i] = std::tanh(gate(*rn(L, i), x, rn(L, i)->lastOutput));
                else { auto* g = gn(L, i); double rg = sig(gate(g->resetGate, x, g->resetGate.lastOutput)), u = sig(gate(g->updateGate, x, g->updateGate.lastOutput)); stale[i] = u * std::tanh(gate(g->outputGate, x, g->outputGate.lastOutput * rg)); }
            }
            const bool reset = zero ? false : t == 0;
            auto a = L.output(x, reset), b = fresh.layers[0]->output(x, reset);
            for (int i = 0; i < n; ++i)
            {
                if (zero && t == 0 ? near(a[i], b[i], 1e-5) : near(a[i], b[i], 1e-5)) continue;
                if (!zero && hist > 0 && near(a[i], stale[i], 1e-3)) known(gru ? "C09-gru-reset" : "C09-recurrence-reset", gru ? "a temporal reset of a gated unit leaves the last outputs of its gates, so the next output depends on the history" : "a temporal reset of a recurrent neuron leaves its last output, so the next output depends on the history");
                else failed(S("output ", i, " is ", a[i], ", a network that never saw an input gives ", b[i], zero ? " (recurrent weights are zero)" : " (after a temporal reset)"));
            }
            if (zero) { auto x2 = r.vec(in); (void)L.output(x2, false); }
        }
        // what a reset does erase
        (void)L.output(r.vec(in), true);
        for (int i = 0; i < n; ++i)
        {
            if (!gru) CHECK(rn(L, i)->recurrentError == 0, "a reset leaves the recurrent error");
            else { auto* g = gn(L, i); CHECK(g->previousOutput == 0 && g->recurrentError == 0 && g->resetGate.recurrentError == 0 && g->updateGate.recurrentError == 0 && g->outputGate.recurrentError == 0, "a reset leaves recurrent state"); }
        }
    }
    return finish();
}
