#include "h.hpp"
using namespace snn;
static V soft(V v, bool train) { auto a = newNet({1}, {FullyConnected(1)}); si::Softmax s(a->layers[0].get()); if (train) s.applyAfterOutputForTraining(v, false); else s.applyAfterOutputForTesting(v); return v; }
static void one(const V& x)
{
    ctxmsg = S("softmax of ", str(x)); ++CASES; double m = *std::max_element(x.begin(), x.end()), sum = 0; for (float v : x) sum += std::exp((double)v - m);
    for (bool t : {false, true})
    {
        auto o = soft(x, t); CHECK(o.size() == x.size(), "size"); double s = 0;
        for (size_t i = 0; i < o.size(); ++i) { CHECK(o[i] >= 0 && o[i] <= 1.000001f, "probability ", i, " is ", o[i]); s += o[i]; CHECK(std::abs(o[i] - std::exp((double)x[i] - m) / sum) < 1e-5, "probability ", i, " is ", o[i], ", expected ", std::exp((double)x[i] - m) / sum); for (size_t j = 0; j < i; ++j) CHECK((x[i] < x[j]) ? o[i] <= o[j] : (x[i] > x[j]) ? o[i] >= o[j] : o[i] == o[j], "order of ", i, " and ", j); }
        CHECK(std::abs(s - 1) < 1e-4, "probabilities sum to ", s);
    }
}
int main()
{
    Rng r(seed());
    for (int n = 1; n <= 8; ++n) for (int it = 0; it < (thorough() ? 400 : 60); ++it) for (float sc : {0.1f, 3.0f, 50.0f, 1000.0f, 1e30f}) { auto x = r.vec(n, -sc, sc); one(x); }
    one({0}); one({-1e30f}); one({1e30f, -1e30f}); one({88, 89, 90}); one({200, 200, 200}); one({-200, -300, -400}); one({0, 0, 0, 0}); one({-104, 0}); one(V(500, 3.0f)); one({-5, -4, -3}); one({-1000, -1000.5f});
    for (int it = 0; it < 50; ++it) { auto x = r.vec(r.range(1, 9)); auto y = x; float c = r.real(-5, 5); for (auto& v : y) v += c; auto a = soft(x, true), b = soft(y, true); for (size_t i = 0; i < a.size(); ++i) CHECK(std::abs(a[i] - b[i]) < 1e-5, "adding a constant changes probability ", i); }
    auto net = newNet({1}, {FullyConnected(1)}); si::Softmax s(net->layers[0].get()); for (int n = 1; n < 9; ++n) { auto e = r.vec(n), c = e; s.applyBeforeBackpropagation(e); CHECK(e == c, "errors changed"); }
    return finish();
}
