#include "h.hpp"
using namespace snn;
int main()
{
    Rng r(seed()); auto archs = allArchs(true); std::vector<std::unique_ptr<Net>> nets; for (auto& a : archs) nets.push_back(build(a));
    for (size_t i = 0; i < nets.size(); ++i) for (size_t j = 0; j < nets.size(); ++j)
    {
        bool e = *nets[i] == *nets[j]; ++CASES; ctxmsg = S(archs[i].name, " and ", archs[j].name); CHECK(e == (i == j), "compared ", e ? "equal" : "different"); CHECK((*nets[i] != *nets[j]) == !e, "!= is not the negation of =="); CHECK((*nets[j] == *nets[i]) == e, "not symmetric");
        for (auto& l : nets[i]->layers) for (auto& m : nets[j]->layers) { bool x = *l == *m; CHECK((*l != *m) == !x, "layers: !="); CHECK((*m == *l) == x, "layers: symmetry"); if (&l == &m) CHECK(x, "layers: reflexivity"); if (typeid(*l) != typeid(*m)) CHECK(!x, "layers of different types are equal"); }
    }
    // kernel shapes, filters and types with the same weights
    struct P { VI in; LayerModel a, b; const char* n; };
    std::vector<P> ps; auto ptr = [&](VI in, LayerModel a, LayerModel b, const char* n) { ps.push_back({in, a, b, n}); };
    ptr({5}, MaxPooling(2), MaxPooling(3), "kernel of max pooling 1d"); ptr({2, 4, 4}, MaxPooling(2), MaxPooling(3), "kernel of max pooling 2d"); ptr({6}, Convolution(1, 2), Convolution(1, 3), "kernel of convolution"); ptr({6}, Convolution(1, 2), Convolution(2, 2), "filters"); ptr({6}, Convolution(1, 2), LocallyConnected(1, 2), "type");
    ptr({3}, FullyConnected(2), FullyConnected(3), "neurons"); ptr({3}, FullyConnected(2, activation::tanh), FullyConnected(2, activation::sigmoid), "activation"); ptr({3}, FullyConnected(2), Recurrence(2), "dense and recurrent"); ptr({3}, Recurrence(2), GruLayer(2), "recurrent and gated");
    for (auto& p : ps) { ctxmsg = p.n; ++CASES; auto a = newNet(p.in, {p.a}), b = newNet(p.in, {p.b}), a2 = newNet(p.in, {p.a}); auto copy = std::make_unique<Net>(*a); CHECK(*a == *copy, "a copy differs"); for (int i = 0; i < a->layers[0]->getNumberOfNeurons(); ++i) if (i < b->layers[0]->getNumberOfNeurons() && !isRec(b->layers[0].get()) && !isGru(b->layers[0].get()) && !isRec(a->layers[0].get()) && sn(*a->layers[0], i)->getWeights().size() == sn(*b->layers[0], i)->getWeights().size()) sn(*b->layers[0], i)->setWeights(sn(*a->layers[0], i)->getWeights()); CHECK(!(*a == *b) && !(*b == *a) && *a != *b && *b != *a, "not told apart"); }
    // every weight counts
    for (int rep = 0; rep < (thorough() ? 6 : 1); ++rep) for (size_t k = 0; k < archs.size(); ++k)
    {
        auto& n = *nets[k]; auto differ = [&](const char* what, auto change) { ctxmsg = archs[k].name; ++CASES; auto c = std::make_unique<Net>(n); CHECK(n == *c && *c == n, "a copy differs"); change(*c); CHECK(!(n == *c), "a different ", what, " is not noticed"); CHECK(!(*c == n), "a different ", what, " is not noticed from the other side"); CHECK(n != *c && *c != n, "!= misses a different ", what); };
        for (size_t l = 0; l < n.layers.size(); ++l)
        {
            int m = n.layers[l]->getNumberOfNeurons();
            for (int i = 0; i < m; ++i)
            {
                std::vector<V> w; if (isRec(n.layers[l].get())) w = {rn(*n.layers[l], i)->getWeights()}; else if (isGru(n.layers[l].get())) { auto g = gn(*n.layers[l], i); w = {g->resetGate.getWeights(), g->updateGate.getWeights(), g->outputGate.getWeights()}; } else w = {sn(*n.layers[l], i)->getWeights()};
                for (size_t g = 0; g < w.size(); ++g) for (size_t j = 0; j < w[g].size(); ++j) differ("weight", [&](Net& c) { V v = w[g]; v[j] += 0.01f; auto& L = *c.layers[l]; if (isRec(&L)) rn(L, i)->setWeights(v); else if (isGru(&L)) { auto u = gn(L, i); (g == 0 ? u->resetGate : g == 1 ? u->updateGate : u->outputGate).setWeights(v); } else sn(L, i)->setWeights(v); });
                if (!isRec(n.layers[l].get()) && !isGru(n.layers[l].get())) differ("bias", [&](Net& c) { sn(*c.layers[l], i)->bias += 0.5f; }); if (isRec(n.layers[l].get())) differ("bias", [&](Net& c) { rn(*c.layers[l], i)->bias += 0.5f; });
            }
            // optimizers of layers
        }
        differ("learning rate", [&](Net& c) { std::dynamic_pointer_cast<si::StochasticGradientDescent>(c.optimizer)->learningRate += 0.01f; }); differ("momentum", [&](Net& c) { std::dynamic_pointer_cast<si::StochasticGradientDescent>(c.optimizer)->momentum += 0.01f; });
        if (n.layers.size() > 1) { differ("number of layers", [&](Net& c) { c.layers.pop_back(); }); }
    }
    std::vector<LayerOptimizerModel> os{Dropout(0.1f), Dropout(0.2f), L1Regularization(0.1f), L1Regularization(0.2f), L2Regularization(0.1f), L2Regularization(0.2f), ErrorMultiplier(0.1f), ErrorMultiplier(0.2f), Softmax()};
    auto base = newNet({2}, {FullyConnected(3)}); std::vector<std::unique_ptr<si::LayerOptimizer>> live; for (auto& m : os) live.push_back(si::LayerOptimizerFactory::build(m, base->layers[0].get()));
    for (size_t i = 0; i < live.size(); ++i) for (size_t j = 0; j < live.size(); ++j) { ++CASES; ctxmsg = S("layer optimizers ", i, " and ", j); CHECK((*live[i] == *live[j]) == (i == j), "comparison"); CHECK((*live[i] != *live[j]) == (i != j), "negation"); }
    for (size_t i = 0; i < os.size(); ++i) for (size_t j = 0; j < os.size(); ++j)
    {
        ctxmsg = S("layers with optimizers ", i, " and ", j); auto c = std::make_unique<Net>(*base), d = std::make_unique<Net>(*base); auto put = [&](Net& n, size_t k) { n.layers[0] = base->layers[0]->clone(n.optimizer); static_cast<si::FullyConnected&>(*n.layers[0]).optimizers.push_back(live[k]->clone(n.layers[0].get())); }; put(*c, i); put(*d, j); ++CASES;
        CHECK((*c == *d) == (i == j) && (*c != *d) == (i != j), "comparison"); if (i == j) { CHECK(!(*c == *base) && !(*base == *c), "an additional optimizer is not noticed"); auto e = std::make_unique<Net>(*c); static_cast<si::FullyConnected&>(*e->layers[0]).optimizers.push_back(live[0]->clone(e->layers[0].get())); CHECK(!(*c == *e) && !(*e == *c), "a second optimizer is not noticed"); }
    }
    return finish();
}
