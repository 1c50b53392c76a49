#include "h.hpp"
using namespace snn;
struct Snap { std::vector<std::vector<V>> w; std::vector<std::vector<V>> d; std::vector<float> bias; float lr, m; int64_t t; std::vector<VI> shapes; std::vector<std::string> opt;
    bool operator==(const Snap&) const = default; };
static void add(Snap& s, si::Neuron& n) { s.d.push_back(n.previousDeltaWeights.queue); s.bias.push_back(n.bias); }
static Snap snap(Net& n)
{
    Snap s; s.w = weightsOf(n); s.t = n.getNumberOfTraining();
    for (auto& l : n.layers)
    {
        s.shapes.push_back(l->getShapeOfOutput());
        for (int i = 0; i < l->getNumberOfNeurons(); ++i)
            if (isRec(l.get())) add(s, *rn(*l, i)); else if (isGru(l.get())) { auto* g = gn(*l, i); add(s, g->resetGate); add(s, g->updateGate); add(s, g->outputGate); } else add(s, *sn(*l, i));
        s.opt.push_back(l->summary());
    }
    auto o = std::dynamic_pointer_cast<si::StochasticGradientDescent>(n.optimizer); s.lr = o->learningRate; s.m = o->momentum; return s;
}
int main()
{
    Rng r(seed());
    for (auto& a : allArchs(true)) for (int rep = 0; rep < 2; ++rep)
    {
        ctxmsg = a.name; ++CASES; auto net = build(a, 0.1f, 0.5f); randomize(*net, r); const int out = net->getNumberOfOutputs();
        if (rep) for (int t = 0; t < 3; ++t) net->trainOnce(r.vec(prod(a.in)), r.vec(out), t == 0);
        auto s = snap(*net); const auto x0 = r.vec(prod(a.in)); V first;
        for (int t = 0; t < 8; ++t)
        {
            auto x = r.vec(prod(a.in), -2, 2); auto xc = x;
            if (t % 3 == 0) (void)net->computeOutput(x, t % 2 == 0); else if (t % 3 == 1) (void)net->computeCluster(x, t % 2 == 0); else (void)net->getLayerOutputs(x);
            CHECK(x == xc, "inference changed the input"); CHECK(snap(*net) == s, "inference ", t, " changed what the network has learned");
            if (!a.recurrent) { auto o = net->computeOutput(x0, t % 2 == 0); if (t == 0) first = o; CHECK(o == first, "two inferences on the same input differ: ", str(first), " and ", str(o)); CHECK(net->computeCluster(x0) == (int)(std::max_element(first.begin(), first.end()) - first.begin()), "predicted class differs from the outputs"); }
        }
        for (int ty = 0; ty < 3; ++ty)
        {
            if (out < 2 && ty == 0) continue;
            vector2D<float> in, lab; for (int i = 0; i < 6; ++i) { in.push_back(r.vec(prod(a.in))); V y(out, 0.0f); if (ty == 0) y[i % out] = 1; else y = r.vec(out, 0, 1); lab.push_back(y); }
            Data data(ty == 0 ? problem::classification : ty == 1 ? problem::multipleClassification : problem::regression, in, lab, nature::nonTemporal); Wait w; auto ci = in; auto cl = lab;
            net->evaluate(data, &w); CHECK(snap(*net) == s, "evaluation changed what the network has learned"); CHECK(ci == in && cl == lab && data.sets[0].inputs == in && data.sets[0].labels == lab, "evaluation changed the data");
            if (!a.recurrent) CHECK(net->computeOutput(x0) == first, "evaluation changed the outputs");
        }
    }
    return finish();
}
