#include "h.hpp"
using namespace snn;
// expected errors of a layer from the wiring; all weights constant (learning rate and momentum zero)
static void filter(const VI& in, int k, int f, bool conv, activation act, Rng& r, bool trainFirst)
{
    ctxmsg = S(conv ? "convolution" : "locally connected", " input ", str(in), " kernel ", k, " filters ", f, " activation ", (int)act); ++CASES;
    auto net = newNet(in, {conv ? Convolution(f, k, act) : LocallyConnected(f, k, act)}, 1e-9f, 0.0f);
    auto opt = std::dynamic_pointer_cast<si::StochasticGradientDescent>(net->optimizer); opt->learningRate = 0; opt->momentum = 0;
    auto& L = *net->layers[0]; randomize(L, r);
    VI s = in.size() == 1 ? VI{1, in[0]} : in;
    const bool two = s.size() == 3; const int C = s[0], X = s[1], Y = two ? s[2] : 1, ky = two ? k : 1;
    const int OX = conv ? X - k + 1 : ceildiv(X, k), OY = two ? (conv ? Y - k + 1 : ceildiv(Y, k)) : 1, P = OX * OY;
    V x = r.vec(C * X * Y, -1, 1), e = r.vec(P * f, -2, 2), ec = e;
    L.outputForTraining(x, false);
    VD sums(P * f);
    auto cell = [&](int p, int i, int& idx) { int c = i % C, xx = (i / C) % k, y = i / (C * k), st = conv ? 1 : k; int ix = p % OX * st + xx, iy = p / OX * st + y; idx = (iy * X + ix) * C + c; return ix < X && iy < Y; };
    VD want(x.size(), 0.0), wantLast(x.size(), 0.0), wantLc(x.size(), 0.0);
    for (int p = 0; p < P; ++p) for (int q = 0; q < f; ++q)
    {
        auto* n = sn(L, conv ? q : p * f + q); auto w = n->getWeights(); double t = (double)n->bias * w.back(); int id;
        for (int i = 0; i < k * ky * C; ++i) if (cell(p, i, id)) t += (double)x[id] * w[i];
        sums[p * f + q] = t;
    }
    for (int p = 0; p < P; ++p) for (int q = 0; q < f; ++q)
    {
        auto w = sn(L, conv ? q : p * f + q)->getWeights(); int id;
        double d = actd(act, sums[p * f + q]), dl = conv ? actd(act, sums[(P - 1) * f + q]) : d;
        for (int i = 0; i < k * ky * C; ++i)
        {
            if (cell(p, i, id)) { want[id] += ec[p * f + q] * d * w[i]; wantLast[id] += ec[p * f + q] * dl * w[i]; }
            if (!conv && !two && cell((p * f + q) % P, i, id)) wantLc[id] += ec[p * f + q] * d * w[i];
        }
    }
    auto got = L.backOutput(e);
    CHECK(got.size() == x.size(), "number of errors");
    auto cmp = [&](const VD& w, size_t& at) { for (at = 0; at < w.size(); ++at) if (!near(got[at], w[at], 2e-3)) return false; return true; };
    size_t at, b;
    if (!cmp(want, at))
    {
        if (conv && act != activation::identity && P > 1 && cmp(wantLast, b)) known("C06-conv-shared-derivative", "a convolution with several positions uses the activation derivative of its last position for the errors of all positions");
        else if (!conv && !two && f > 1 && P > 1 && cmp(wantLc, b)) known("C06-lc1d-window-of-error", "LocallyConnected1D with several filters and positions adds the errors of output n to window n modulo the number of positions instead of window n divided by the number of filters");
        else failed(S("error of input cell ", at, " is ", got[at], ", expected ", want[at], " for output errors ", str(ec)));
    }
}
static void train(const VI& in, const LayerModel& m, Rng& r, const std::string& name)
{
    // identity activation, no momentum: sum over a layer of weight changes of the biases tells which errors were consumed
    ctxmsg = S("train first layer ", name, " input ", str(in)); ++CASES;
    auto net = newNet(in, {m}, 0.5f, 0.0f); auto& L = *net->layers[0]; randomize(L, r);
    for (int i = 0; i < L.getNumberOfNeurons(); ++i) if (!isRec(&L) && !isGru(&L)) sn(L, i)->bias = 1.0f;
    auto before = weightsOf(L); V x = r.vec(prod(in)); auto o = L.outputForTraining(x, true);
    V e = r.vec(o.size(), -1, 1), ec = e; L.train(e);
    auto after = weightsOf(L); const int n = L.getNumberOfNeurons(), P = (int)o.size() / n; const bool conv = m.type == convolution;
    for (int i = 0; i < n; ++i)
    {
        double s = 0; if (conv) for (int p = 0; p < P; ++p) s += ec[p * n + i]; else s = ec[i];
        double lr = conv ? 0.5 / P : 0.5; double got = (double)after[i].back() - before[i].back();
        CHECK(near(got, lr * s, 1e-3), "bias weight of neuron ", i, " changed by ", got, ", the errors of its outputs ask for ", lr * s);
    }
}
static void trainBoth(const VI& in, const LayerModel& m, Rng& r, const std::string& name)
{
    // backOutput and train must consume the errors in the same way: same weights afterwards
    ctxmsg = S("train and backOutput ", name, " input ", str(in)); ++CASES;
    auto a = newNet(in, {m}, 0.3f, 0.4f); randomize(*a, r); auto b = std::make_unique<Net>(*a);
    for (int t = 0; t < 3; ++t)
    {
        V x = r.vec(prod(in)); auto oa = a->layers[0]->outputForTraining(x, t == 0), ob = b->layers[0]->outputForTraining(x, t == 0);
        V e = r.vec(oa.size(), -1, 1), e2 = e; CHECK(oa == ob, "outputs of two copies differ");
        a->layers[0]->train(e); b->layers[0]->backOutput(e2);
        auto wa = weightsOf(*a->layers[0]), wb = weightsOf(*b->layers[0]);
        for (size_t i = 0; i < wa.size(); ++i) for (size_t j = 0; j < wa[i].size(); ++j) CHECK(near(wa[i][j], wb[i][j], 1e-5), "step ", t, " weight ", j, " of neuron ", i, " differs: train ", wa[i][j], " backOutput ", wb[i][j]);
    }
}
int main()
{
    Rng r(seed());
    for (bool conv : {true, false})
    {
        for (int x = 1; x <= 7; ++x) for (int k = 1; k <= x; ++k) for (int f = 1; f <= 3; ++f) for (int c = 1; c <= 3; ++c) for (auto a : {activation::identity, activation::tanh}) filter({c, x}, k, f, conv, a, r, false);
        for (int c = 1; c <= 3; ++c) for (int x = 1; x <= 5; ++x) for (int y = 1; y <= 5; ++y) for (int k = 1; k <= std::min(x, y); ++k) for (int f = 1; f <= 3; ++f) for (auto a : {activation::identity, activation::sigmoid}) filter({c, x, y}, k, f, conv, a, r, false);
        for (int it = 0; it < (thorough() ? 600 : 60); ++it) { int x = r.range(1, 10), y = r.range(1, 10); filter({r.range(1, 4), x, y}, r.range(1, std::min(x, y)), r.range(1, 5), conv, activation::identity, r, false); }
    }
    for (auto act : ALLACT) for (int in = 1; in <= 6; ++in) for (int n = 1; n <= 5; ++n) for (int kind = 0; kind < 2; ++kind) for (float lr : {0.0f, 0.3f})
    {
        ctxmsg = S(kind ? "recurrent" : "dense", " layer inputs ", in, " neurons ", n, " activation ", (int)act, " learning rate ", lr); ++CASES;
        auto net = newNet({in}, {kind ? Recurrence(n, act) : FullyConnected(n, act)}, 0.1f, 0.0f); auto& L = *net->layers[0]; randomize(L, r);
        std::dynamic_pointer_cast<si::StochasticGradientDescent>(net->optimizer)->learningRate = lr;
        V x = r.vec(in), e = r.vec(n, -2, 2), ec = e; L.outputForTraining(x, true);
        VD want(in, 0.0);
        for (int i = 0; i < n; ++i)
        {
            auto w = weightsOf(L)[i]; double s = 0, b = kind ? rn(L, i)->bias : sn(L, i)->bias; s = b * w.back(); for (int k = 0; k < in; ++k) s += (double)x[k] * w[k];
            for (int k = 0; k < in; ++k) want[k] += ec[i] * actd(act, s) * w[k];
        }
        auto got = L.backOutput(e); CHECK((int)got.size() == in, "number of errors");
        for (int k = 0; k < in; ++k) CHECK(near(got[k], want[k], 5e-3), "error of input ", k, " is ", got[k], ", expected ", want[k]);
    }
    for (int in = 1; in <= 6; ++in) for (int n = 1; n <= 4; ++n) { train({in}, FullyConnected(n, activation::identity), r, "dense"); trainBoth({in}, FullyConnected(n, activation::tanh), r, "dense"); trainBoth({in}, Recurrence(n), r, "recurrent"); trainBoth({in}, GruLayer(n), r, "gated"); }
    for (int c = 1; c <= 3; ++c) for (int x = 2; x <= 6; ++x) for (int k = 1; k <= x; ++k) for (int f = 1; f <= 3; ++f)
    {
        train({c, x}, Convolution(f, k, activation::identity), r, "convolution 1d"); train({c, x}, LocallyConnected(f, k, activation::identity), r, "locally connected 1d");
        trainBoth({c, x}, Convolution(f, k, activation::tanh), r, "convolution 1d"); trainBoth({c, x}, LocallyConnected(f, k, activation::tanh), r, "locally connected 1d");
        if (k <= 4) { train({c, x, 4}, Convolution(f, k, activation::identity), r, "convolution 2d"); train({c, x, 4}, LocallyConnected(f, k, activation::identity), r, "locally connected 2d");
                      trainBoth({c, 4, x}, Convolution(f, k, activation::tanh), r, "convolution 2d"); trainBoth({c, 4, x}, LocallyConnected(f, k, activation::tanh), r, "locally connected 2d"); }
    }
    // a network passes the errors of each layer to the layer before it: gradient of the squared error by finite differences
    for (auto& a : std::vector<Arch>{{{3}, {FullyConnected(4, activation::tanh), FullyConnected(3, activation::sigmoid), FullyConnected(2, activation::identity)}, "three dense", false},
                                     {{2, 5}, {FullyConnected(6, activation::tanh), LocallyConnected(1, 2, activation::tanh), FullyConnected(2, activation::identity)}, "dense lc dense", false},
                                     {{2, 3, 4}, {LocallyConnected(2, 2, activation::tanh), FullyConnected(2, activation::identity)}, "lc2d dense", false},
                                     {{6}, {Convolution(2, 2, activation::identity), MaxPooling(2), FullyConnected(2, activation::tanh)}, "conv pool dense", false}})
    {
        ctxmsg = "gradient of " + a.name; ++CASES;
        const float lr = 1e-3f; auto net = build(a, lr, 0.0f); randomize(*net, r);
        V x = r.vec(prod(a.in)), y = r.vec(net->getNumberOfOutputs());
        auto loss = [&](Net& n) { auto o = n.computeOutput(x); double s = 0; for (size_t i = 0; i < o.size(); ++i) s += ((double)o[i] - y[i]) * ((double)o[i] - y[i]); return s; };
        auto before = weightsOf(*net); Net probe(*net); net->trainOnce(x, y, true); auto after = weightsOf(*net);
        for (size_t l = 0; l < before.size(); ++l) for (size_t n = 0; n < before[l].size(); ++n) for (size_t w = 0; w < before[l][n].size(); ++w)
        {
            auto* nn = sn(*probe.layers[l], (int)n); auto ws = before[l][n]; const float h = 4e-3f;
            ws[w] += h; nn->setWeights(ws); double up = loss(probe); ws[w] -= 2 * h; nn->setWeights(ws); double dn = loss(probe); nn->setWeights(before[l][n]);
            double g = -(up - dn) / (2 * h) * lr; if (a.layers[l].type == convolution) g /= 5;
            double got = (double)after[l][n][w] - before[l][n][w];
            CHECK(std::abs(got - g) < 2e-5 + 0.03 * std::abs(g), "layer ", l, " neuron ", n, " weight ", w, " changed by ", got, ", gradient asks for ", g);
        }
    }
    return finish();
}
