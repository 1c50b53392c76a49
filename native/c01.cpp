#include "h.hpp"
using namespace snn;
// independent shape arithmetic from the statement
struct Spec { VI shape; int inputs, outputs, neurons, params; };
static Spec step(const LayerModel& m, VI in)
{
    Spec s{}; s.inputs = prod(in);
    int n = m.numberOfNeurons, k = m.kernelSize, f = m.numberOfFilters;
    switch (m.type)
    {
    case fullyConnected: s.shape = {n}; s.neurons = n; s.params = n * (s.inputs + 1); break;
    case recurrence: s.shape = {n}; s.neurons = n; s.params = n * (s.inputs + 2); break;
    case gruLayer: s.shape = {n}; s.neurons = n; s.params = 3 * n * (s.inputs + 2); break;
    default:
        if (in.size() == 1) in = {1, in[0]};
        int pos = 1, cells = in[0];
        VI out{m.type == maxPooling ? in[0] : f};
        for (size_t d = 1; d < in.size(); ++d)
        {
            int o = m.type == convolution ? in[d] - k + 1 : ceildiv(in[d], k);
            out.push_back(o); pos *= o; cells *= k;
        }
        s.shape = out;
        s.neurons = m.type == maxPooling ? 0 : m.type == convolution ? f : f * pos;
        s.params = s.neurons * (cells + 1);
    }
    s.outputs = prod(s.shape);
    return s;
}
static void one(const VI& in, const Models& ls, const std::string& name)
{
    ctxmsg = S("input ", str(in), " layers ", name); ++CASES;
    std::unique_ptr<Net> net;
    try { net = newNet(in, ls); } catch (std::exception& e) { failed(S("refused: ", e.what())); }
    VI shape = in; Rng r(7); V x = r.vec(prod(in)), xt = x;
    int neurons = 0, params = 0;
    CHECK((int)net->layers.size() == (int)ls.size(), "number of layers");
    CHECK(net->getNumberOfInputs() == prod(in), "network announces ", net->getNumberOfInputs(), " inputs, has ", prod(in));
    for (size_t l = 0; l < ls.size(); ++l)
    {
        auto s = step(ls[l], shape);
        auto& L = *net->layers[l];
        CHECK(L.getNumberOfInputs() == s.inputs, "layer ", l, " announces ", L.getNumberOfInputs(), " inputs, expected ", s.inputs);
        CHECK(L.getShapeOfOutput() == s.shape, "layer ", l, " output shape ", str(L.getShapeOfOutput()), ", expected ", str(s.shape));
        CHECK(prod(L.getShapeOfInput()) == s.inputs, "layer ", l, " input shape ", str(L.getShapeOfInput()));
        CHECK(L.getNumberOfNeurons() == s.neurons, "layer ", l, " neurons ", L.getNumberOfNeurons(), ", expected ", s.neurons);
        CHECK(L.getNumberOfParameters() == s.params, "layer ", l, " parameters ", L.getNumberOfParameters(), ", expected ", s.params);
        x = L.output(x, true); xt = L.outputForTraining(xt, true);
        CHECK((int)x.size() == s.outputs, "layer ", l, " returns ", x.size(), " values, announces ", s.outputs);
        CHECK((int)xt.size() == s.outputs, "layer ", l, " returns ", xt.size(), " values in training, announces ", s.outputs);
        V e(s.outputs, 0.01f);
        if (l > 0) { auto b = L.backOutput(e); CHECK((int)b.size() == s.inputs, "layer ", l, " returns ", b.size(), " errors for ", s.inputs, " inputs"); }
        else L.train(e);
        neurons += s.neurons; params += s.params; shape = s.shape;
    }
    CHECK(net->getNumberOfOutputs() == prod(shape), "network announces ", net->getNumberOfOutputs(), " outputs, returns ", prod(shape));
    CHECK((int)net->computeOutput(r.vec(prod(in))).size() == prod(shape), "number of outputs");
    CHECK(net->getNumberOfNeurons() == neurons, "network neurons");
    CHECK(net->getNumberOfParameters() == params, "network parameters");
    CHECK(net->getNumberOfLayers() == (int)ls.size(), "getNumberOfLayers");
}
int main()
{
    for (auto& a : allArchs(true)) one(a.in, a.layers, a.name);
    std::vector<VI> shapes;
    for (int x = 1; x <= 7; ++x) { shapes.push_back({x}); for (int c = 1; c <= 3; ++c) shapes.push_back({c, x}); }
    for (int c = 1; c <= 3; ++c) for (int x = 1; x <= 5; ++x) for (int y = 1; y <= 5; ++y) shapes.push_back({c, x, y});
    auto sname = [](const LayerModel& m) { return S("type", m.type, " kernel", m.kernelSize, " filters", m.numberOfFilters, " neurons", m.numberOfNeurons); };
    for (auto& s : shapes)
    {
        int mx = 1000; size_t from = s.size() == 1 ? 0 : 1;
        for (size_t d = from; d < s.size(); ++d) mx = std::min(mx, s[d]);
        for (int n = 1; n <= 3; ++n) for (auto& m : {FullyConnected(n), Recurrence(n), GruLayer(n)}) one(s, {m}, sname(m));
        for (int k = 1; k <= mx; ++k)
        {
            one(s, {MaxPooling(k)}, sname(MaxPooling(k)));
            one(s, {MaxPooling(k), FullyConnected(2)}, sname(MaxPooling(k)) + ", dense");
            for (int f = 1; f <= 3; ++f) for (auto& m : {Convolution(f, k), LocallyConnected(f, k)}) { one(s, {m}, sname(m)); one(s, {m, FullyConnected(2)}, sname(m) + ", dense"); }
        }
    }
    // chains of random layers
    Rng r(seed());
    for (int it = 0; it < (thorough() ? 4000 : 800); ++it)
    {
        VI in; int d = r.range(1, 3);
        if (d == 1) in = {r.range(1, 12)}; else if (d == 2) in = {r.range(1, 3), r.range(1, 12)}; else in = {r.range(1, 3), r.range(1, 8), r.range(1, 8)};
        Models ls; VI sh = in; std::string nm; int n = r.range(1, 5);
        for (int l = 0; l < n; ++l)
        {
            int mx = 1000; for (size_t q = sh.size() == 1 ? 0 : 1; q < sh.size(); ++q) mx = std::min(mx, sh[q]);
            int k = r.range(1, std::min(mx, 4)), f = r.range(1, 3); LayerModel m = FullyConnected(r.range(1, 6));
            switch (r.below(7)) { case 0: break; case 1: m = Recurrence(r.range(1, 4)); break; case 2: m = GruLayer(r.range(1, 3)); break;
                case 3: m = MaxPooling(k); break; case 4: m = LocallyConnected(f, k); break; default: m = Convolution(f, k); }
            ls.push_back(m); nm += sname(m) + ", "; sh = step(m, sh).shape;
        }
        one(in, ls, nm);
    }
    return finish();
}
