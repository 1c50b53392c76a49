#include "h.hpp"
using namespace snn;
static void one(const VI& in, int k, int f, bool conv, activation act, Rng& r)
{
    ctxmsg = S(conv ? "convolution" : "locally connected", " input ", str(in), " kernel ", k, " filters ", f, " activation ", (int)act); ++CASES;
    auto net = newNet(in, {conv ? Convolution(f, k, act) : LocallyConnected(f, k, act)});
    auto& L = *net->layers[0]; randomize(L, r); for (int i = 0; i < L.getNumberOfNeurons(); ++i) sn(L, i)->bias = r.real(-1, 1);
    VI s = in.size() == 1 ? VI{1, in[0]} : in;
    const bool two = s.size() == 3; const int C = s[0], X = s[1], Y = two ? s[2] : 1, ky = two ? k : 1;
    const int OX = conv ? X - k + 1 : ceildiv(X, k), OY = two ? (conv ? Y - k + 1 : ceildiv(Y, k)) : 1;
    for (int rep = 0; rep < 2; ++rep)
    {
        V x = r.vec(C * X * Y, -2, 2); auto xc = x;
        auto out = rep == 0 ? L.output(x, false) : L.outputForTraining(x, false);
        CHECK(x == xc, "input changed"); CHECK((int)out.size() == OX * OY * f, "number of outputs ", out.size());
        for (int p = 0; p < OX * OY; ++p)
            for (int q = 0; q < f; ++q)
            {
                int px = p % OX, py = p / OX, st = conv ? 1 : k;
                auto w = sn(L, conv ? q : p * f + q)->getWeights();
                double sum = static_cast<double>(sn(L, conv ? q : p * f + q)->bias) * w.back();
                CHECK((int)w.size() == k * ky * C + 1, "weights per kernel");
                for (int y = 0; y < ky; ++y) for (int xx = 0; xx < k; ++xx) for (int c = 0; c < C; ++c)
                {
                    int ix = px * st + xx, iy = py * st + y;
                    double v = ix < X && iy < Y ? x[(iy * X + ix) * C + c] : 0;
                    sum += v * w[(y * k + xx) * C + c];
                }
                CHECK(near(out[p * f + q], actf(act, sum), 1e-4), "output of position ", p, " filter ", q, " is ", out[p * f + q], ", expected ", actf(act, sum), " for input ", str(x));
            }
    }
}
int main()
{
    Rng r(seed());
    for (bool conv : {true, false})
    {
        for (int x = 1; x <= 7; ++x) for (int k = 1; k <= x; ++k) for (int f = 1; f <= 3; ++f)
        {
            one({x}, k, f, conv, activation::identity, r);
            for (int c = 1; c <= 3; ++c) one({c, x}, k, f, conv, activation::tanh, r);
        }
        for (int c = 1; c <= 3; ++c) for (int x = 1; x <= 6; ++x) for (int y = 1; y <= 6; ++y) for (int k = 1; k <= std::min(x, y); ++k) for (int f = 1; f <= 2; ++f)
            one({c, x, y}, k, f, conv, activation::identity, r);
        for (auto a : ALLACT) { one({2, 5}, 2, 2, conv, a, r); one({2, 4, 5}, 2, 2, conv, a, r); }
        for (int it = 0; it < (thorough() ? 600 : 60); ++it)
        {
            int c = r.range(1, 5), x = r.range(1, 14), y = r.range(1, 14);
            one({c, x}, r.range(1, x), r.range(1, 5), conv, activation::identity, r);
            one({c, x, y}, r.range(1, std::min({x, y, 5})), r.range(1, 4), conv, activation::sigmoid, r);
        }
    }
    return finish();
}
