#include "h.hpp"
using namespace snn;
int main()
{
    Rng r(seed());
    for (int b = 1; b <= 7; ++b) for (int d = 1; d <= 3; ++d) for (int mode = 0; mode < 3; ++mode)
    {
        ctxmsg = S("circular queue of ", b, " entries of size ", d, " mode ", mode); ++CASES;
        si::CircularData q; q.initialize(b, d);
        for (int i = 0; i < b; ++i) CHECK(*q.getBack() == V(d, 0.0f), "a new queue does not hold zeros");
        std::vector<V> pushed; int gets = 0;
        for (int pass = 0; pass < 5; ++pass)
        {
            if (mode == 2 && pass % 2 == 1) for (int i = 0; i < b; ++i) { auto v = r.vec(d); q.pushBack(v); }    // inference pass
            pushed.clear(); gets = 0;
            if (mode != 1) { for (int i = 0; i < b; ++i) { pushed.push_back(r.vec(d)); q.pushBack(pushed.back()); } for (int i = 0; i < b; ++i, ++gets) CHECK(*q.getBack() == pushed[gets], "pass ", pass, " fetch ", gets, " gives another entry"); }
            else for (int i = 0; i < b; ++i) { pushed.push_back(r.vec(d)); q.pushBack(pushed.back()); CHECK(*q.getBack() == pushed[gets++], "pass ", pass, " fetch after store ", i, " gives another entry"); }
        }
    }
    // convolution and dense layers: with identity activation and no momentum the weight change is the sum of error times input of the same position
    for (int two = 0; two < 2; ++two) for (int c = 1; c <= 2; ++c) for (int x = 1; x <= 6; ++x) for (int k = 1; k <= std::min(x, 4); ++k) for (int f = 1; f <= 3; ++f) for (int first = 0; first < 2; ++first)
    {
        VI in = two ? VI{c, x, 4} : VI{c, x}; const int Y = two ? 4 : 1, ky = two ? k : 1, OX = x - k + 1, OY = two ? 4 - k + 1 : 1, P = OX * OY; const float lr = 0.3f;
        ctxmsg = S("convolution ", str(in), " kernel ", k, " filters ", f, first ? " first layer" : " back propagation"); ++CASES;
        auto net = newNet(in, {Convolution(f, k, activation::identity)}, lr, 0.0f); auto& L = *net->layers[0]; randomize(L, r);
        for (int pass = 0; pass < 4; ++pass)
        {
            if (pass == 1) (void)L.output(r.vec(prod(in)), true);
            if (pass == 3) for (int i = 0; i < 3; ++i) (void)L.output(r.vec(prod(in)), false);
            V v = r.vec(prod(in)), e = r.vec(P * f), ec = e; auto w0 = weightsOf(L); (void)L.outputForTraining(v, false); if (first) L.train(e); else (void)L.backOutput(e); auto w1 = weightsOf(L);
            for (int n = 0; n < f; ++n) for (int i = 0; i < k * ky * c; ++i)
            {
                double s = 0; int cc = i % c, xx = (i / c) % k, yy = i / (c * k);
                for (int p = 0; p < P; ++p) s += (double)ec[p * f + n] * v[((p / OX + yy) * x + p % OX + xx) * c + cc];
                CHECK(near((double)w1[n][i] - w0[n][i], lr / P * s, 1e-4), "pass ", pass, " filter ", n, " weight ", i, " changes by ", (double)w1[n][i] - w0[n][i], ", expected ", lr / P * s);
            }
        }
    }
    // an inference in between does not change what a training does (no recurrent layer, no dropout)
    for (auto& a : allArchs(true))
    {
        if (a.recurrent || a.name.find("dropout") != std::string::npos || a.name.find("several") != std::string::npos) continue;
        ctxmsg = "inference between trainings, " + a.name; ++CASES; auto p = build(a, 0.1f, 0.5f); randomize(*p, r); Net q(*p);
        for (int t = 0; t < 6; ++t)
        {
            auto x = r.vec(prod(a.in)), y = r.vec(p->getNumberOfOutputs()); p->trainOnce(x, y, true);
            for (int i = 0; i <= t % 3; ++i) (void)q.computeOutput(r.vec(prod(a.in)), i == 0);
            q.trainOnce(x, y, true);
            auto wp = weightsOf(*p), wq = weightsOf(q);
            for (size_t l = 0; l < wp.size(); ++l) for (size_t n = 0; n < wp[l].size(); ++n) for (size_t w = 0; w < wp[l][n].size(); ++w) CHECK(near(wp[l][n][w], wq[l][n][w], 1e-5), "training ", t, " layer ", l, " neuron ", n, " weight ", w, " differs by an inference");
        }
    }
    return finish();
}
