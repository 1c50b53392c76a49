#include "h.hpp"
using namespace snn;
int main()
{
    Rng r(seed());
    for (auto a : ALLACT)
    {
        auto f = si::ActivationFunction::get(a); CHECK(f != nullptr, "no function"); ctxmsg = f->getName(); CHECK(f->getType() == a, "activation ", (int)a, " selects ", f->getName()); int N = thorough() ? 200000 : 20000;
        for (int i = 0; i <= N; ++i)
        {
            float x = i % 4 == 3 ? r.real(-30, 30) : -12 + 24.0f * i / N; ++CASES; if (a == activation::ReLU && std::abs(x) < 1e-4) continue; double want = actf(a, x), d = actd(a, x); float y = f->function(x), g = f->derivative(x);
            CHECK(near(y, want, 2e-5), "the function at ", x, " is ", y, ", expected ", want); CHECK(near(g, d, 1e-4), "the derivative at ", x, " is ", g, ", expected ", d);
            if (a == activation::sigmoid || a == activation::gaussian) CHECK(y >= 0 && y <= 1, "value ", y, " at ", x); if (a == activation::tanh) CHECK(y >= -1 && y <= 1, "value ", y, " at ", x); if (a == activation::ReLU) CHECK(y >= 0, "value ", y, " at ", x); if (a == activation::identity) CHECK(y == x, "value ", y, " at ", x);
        }
        for (float x : {-1e30f, -1e6f, -500.0f, -90.0f, 90.0f, 500.0f, 1e6f, 1e30f}) { float y = f->function(x); ++CASES; if (a == activation::sigmoid || a == activation::gaussian) CHECK(y >= 0 && y <= 1, "value ", y, " at ", x); if (a == activation::tanh) CHECK(y >= -1 && y <= 1, "value ", y, " at ", x); if (a == activation::ReLU) CHECK(y == (x > 0 ? x : 0), "value ", y, " at ", x); if (a == activation::identity) CHECK(y == x, "value ", y, " at ", x); }
        for (float x : {-80.0f, -40.0f, -20.0f, 20.0f, 40.0f, 80.0f}) { float g = f->derivative(x); ++CASES; CHECK(near(g, actd(a, x), 1e-3), "the derivative at ", x, " is ", g); }
        // the neuron built with this name uses it
        auto net = newNet({1}, {FullyConnected(1, a)}); sn(*net->layers[0], 0)->setWeights({1, 0}); for (float x : {-2.0f, -0.5f, 0.25f, 3.0f}) { auto o = net->computeOutput({x}); CHECK(near(o[0], actf(a, x)), "a neuron of this kind returns ", o[0], " for ", x); }
        if (a != activation::ReLU) { float g0 = f->derivative(0); CHECK(near(g0, actd(a, 0)), "the derivative at 0 is ", g0); }
    }
    ctxmsg = ""; CHECK(throws([] { si::ActivationFunction::get((activation)99); }), "an unknown activation is accepted");
    return finish();
}
