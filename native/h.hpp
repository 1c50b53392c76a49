// Shared parts of the native replay harnesses: they drive the real classes of /repo, compiled from the current tree.
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
#include <snn/neural_network/StraightforwardNeuralNetwork.hpp>
#include <snn/data/Data.hpp>
#include <snn/tools/Tools.hpp>
#include <snn/tools/ExtendedExpection.hpp>
#include <snn/neural_network/layer/Convolution1D.hpp>
#include <snn/neural_network/layer/Convolution2D.hpp>
#include <snn/neural_network/layer/LocallyConnected1D.hpp>
#include <snn/neural_network/layer/LocallyConnected2D.hpp>
#include <snn/neural_network/layer/MaxPooling1D.hpp>
#include <snn/neural_network/layer/MaxPooling2D.hpp>
#include <snn/neural_network/layer/FullyConnected.hpp>
#include <snn/neural_network/layer/Recurrence.hpp>
#include <snn/neural_network/layer/GruLayer.hpp>
#include <snn/neural_network/optimizer/Dropout.hpp>
#include <snn/neural_network/optimizer/Softmax.hpp>
#include <snn/neural_network/optimizer/L1Regularization.hpp>
#include <snn/neural_network/optimizer/L2Regularization.hpp>
#include <snn/neural_network/optimizer/ErrorMultiplier.hpp>
#include <snn/neural_network/optimizer/StochasticGradientDescent.hpp>

namespace si = snn::internal;
using V = std::vector<float>;
using VD = std::vector<double>;
using VI = std::vector<int>;
using Models = std::vector<snn::LayerModel>;
using Net = snn::StraightforwardNeuralNetwork;

static long long CASES = 0;
static std::string ctxmsg;
[[noreturn]] inline void failed(const std::string& m)
{
    std::printf("FAIL %s%s%s\n", ctxmsg.c_str(), ctxmsg.empty() ? "" : " :: ", m.c_str());
    std::fflush(stdout);
    _exit(3);
}
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#include <csignal>
inline void deathNote(const char* what)
{
    static bool once = false; if (once) return; once = true;
    std::string m = "FAIL " + ctxmsg + (ctxmsg.empty() ? "" : " :: ") + what + "\n";
    std::fflush(stdout); if (write(1, m.data(), m.size())) {}
}
struct Guards
{
    Guards()
    {
        __sanitizer_set_death_callback([] { deathNote("undefined behaviour or memory error (see the sanitizer report)"); _exit(3); });
        std::set_terminate([] { std::string w = "uncaught exception"; try { if (auto e = std::current_exception()) std::rethrow_exception(e); } catch (std::exception& x) { w += std::string(": ") + x.what(); } catch (...) {} deathNote(w.c_str()); _exit(3); });
        std::signal(SIGABRT, [](int) { deathNote("aborted (failed assertion of the standard library)"); _exit(3); });
        std::signal(SIGALRM, [](int) { deathNote("did not finish within its time"); _exit(4); });
        const char* t = std::getenv("HARNESS_SECONDS"); alarm(t ? std::atoi(t) : 400);
    }
} static guards;
inline void known(const std::string& key, const std::string& m)
{
    static std::set<std::string> seen;
    if (seen.insert(key).second) { std::printf("KNOWN %s %s\n", key.c_str(), m.c_str()); std::fflush(stdout); }
}
inline int finish() { std::printf("OK cases=%lld\n", CASES); std::fflush(stdout); _exit(0); }
template <class... A> std::string S(A&&... a) { std::ostringstream o; o.precision(9); (o << ... << a); return o.str(); }
template <class T> std::string str(const std::vector<T>& v)
{
    std::ostringstream o; o.precision(9); o << "{";
    for (size_t i = 0; i < v.size() && i < 40; ++i) o << (i ? ", " : "") << v[i];
    if (v.size() > 40) o << ", ...";
    o << "}"; return o.str();
}
#define CHECK(c, ...) do { if (!(c)) failed(S(__VA_ARGS__)); } while (0)
inline bool near(double a, double b, double tol = 1e-4) { return std::abs(a - b) <= tol * (1 + std::max(std::abs(a), std::abs(b))); }

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 2862933555777941757ull + 3037000493ull) {}
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ull >> 11; }
    int below(int n) { return static_cast<int>(next() % static_cast<uint64_t>(n)); }
    int range(int a, int b) { return a + below(b - a + 1); }
    double unit() { return static_cast<double>(next() % 1000003) / 1000003.0; }
    float real(float a, float b) { return a + static_cast<float>(unit()) * (b - a); }
    V vec(size_t n, float a = -1, float b = 1) { V v(n); for (auto& x : v) x = real(a, b); return v; }
};

inline int prod(const VI& s) { int p = 1; for (int x : s) p *= x; return p; }
inline snn::LayerModel inputModel(const VI& s)
{
    auto m = snn::Input(1);
    m.shapeOfInput = s;
    return m;
}
inline Net makeNet(const VI& in, Models layers, float lr = 0.05f, float mom = 0.0f)
{
    Models m{inputModel(in)};
    for (auto& l : layers) m.push_back(l);
    return Net(m, snn::StochasticGradientDescent(lr, mom));
}
inline std::unique_ptr<Net> newNet(const VI& in, Models layers, float lr = 0.05f, float mom = 0.0f)
{
    Models m{inputModel(in)};
    for (auto& l : layers) m.push_back(l);
    return std::make_unique<Net>(m, snn::StochasticGradientDescent(lr, mom));
}
inline si::SimpleNeuron* sn(si::BaseLayer& l, int i) { return static_cast<si::SimpleNeuron*>(l.getNeuron(i)); }
inline si::RecurrentNeuron* rn(si::BaseLayer& l, int i) { return static_cast<si::RecurrentNeuron*>(l.getNeuron(i)); }
inline si::GatedRecurrentUnit* gn(si::BaseLayer& l, int i) { return static_cast<si::GatedRecurrentUnit*>(l.getNeuron(i)); }
inline V randomWeights(Rng& r, size_t n, float a = -0.8f, float b = 0.8f) { return r.vec(n, a, b); }
inline bool isRec(si::BaseLayer* l) { return dynamic_cast<si::Recurrence*>(l) != nullptr; }
inline bool isGru(si::BaseLayer* l) { return dynamic_cast<si::GruLayer*>(l) != nullptr; }
// every weight vector of a layer, in order of neurons (gates of a gated unit one after the other)
inline std::vector<V> weightsOf(si::BaseLayer& l)
{
    std::vector<V> r;
    for (int i = 0; i < l.getNumberOfNeurons(); ++i)
        if (isRec(&l)) r.push_back(rn(l, i)->getWeights());
        else if (isGru(&l)) r.push_back(gn(l, i)->getWeights());
        else r.push_back(sn(l, i)->getWeights());
    return r;
}
inline std::vector<std::vector<V>> weightsOf(Net& n)
{
    std::vector<std::vector<V>> r;
    for (auto& l : n.layers) r.push_back(weightsOf(*l));
    return r;
}
inline void randomize(si::BaseLayer& l, Rng& r, float a = -0.8f, float b = 0.8f)
{
    for (int i = 0; i < l.getNumberOfNeurons(); ++i)
        if (isRec(&l)) rn(l, i)->setWeights(randomWeights(r, rn(l, i)->getWeights().size(), a, b));
        else if (isGru(&l))
        {
            auto g = gn(l, i);
            for (auto* x : {&g->resetGate, &g->updateGate, &g->outputGate}) x->setWeights(randomWeights(r, x->getWeights().size(), a, b));
        }
        else sn(l, i)->setWeights(randomWeights(r, sn(l, i)->getWeights().size(), a, b));
}
inline void randomize(Net& n, Rng& r) { for (auto& l : n.layers) randomize(*l, r); }
// reference activation functions, written from their definitions
inline double actf(snn::activation a, double x)
{
    switch (a)
    {
    case snn::activation::sigmoid: return 1 / (1 + std::exp(-x));
    case snn::activation::iSigmoid: return 1 / (1 + std::exp(-x)) + 0.05 * x;
    case snn::activation::tanh: return std::tanh(x);
    case snn::activation::ReLU: return x > 0 ? x : 0;
    case snn::activation::GELU: return x / (1 + std::exp(-1.702 * x));
    case snn::activation::gaussian: return std::exp(-x * x);
    case snn::activation::identity: return x;
    }
    return 0;
}
inline double actd(snn::activation a, double x)
{
    const double h = 1e-5;
    if (a == snn::activation::ReLU) return x > 0 ? 1 : 0;
    return (actf(a, x + h) - actf(a, x - h)) / (2 * h);
}
static const snn::activation ALLACT[] = {snn::activation::sigmoid, snn::activation::iSigmoid, snn::activation::tanh, snn::activation::ReLU,
                                         snn::activation::GELU, snn::activation::gaussian, snn::activation::identity};
inline bool thorough() { const char* t = std::getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
inline uint64_t seed() { const char* t = std::getenv("VERIF_SEED"); return t ? std::strtoull(t, nullptr, 10) : 1; }
inline int ceildiv(int a, int b) { return (a + b - 1) / b; }

// a list of small architectures of every kind (shape of input, layers)
struct Arch { VI in; Models layers; std::string name; bool recurrent; };
inline std::vector<Arch> allArchs(bool withOptimizers)
{
    using namespace snn;
    std::vector<Arch> r;
    auto add = [&](VI in, Models l, std::string n, bool rec = false) { r.push_back({in, l, n, rec}); };
    add({3}, {FullyConnected(4), FullyConnected(2, activation::tanh)}, "dense");
    add({1}, {FullyConnected(1, activation::identity)}, "dense 1x1");
    add({4}, {Recurrence(3), FullyConnected(2)}, "recurrence", true);
    add({2}, {FullyConnected(3), Recurrence(2, activation::sigmoid)}, "dense recurrence", true);
    add({3}, {GruLayer(3), FullyConnected(2)}, "gru", true);
    add({2}, {FullyConnected(2), GruLayer(2)}, "dense gru", true);
    add({7}, {Convolution(2, 3), FullyConnected(2)}, "conv1d", false);
    add({2, 6}, {Convolution(3, 2, activation::tanh), FullyConnected(3)}, "conv1d channels");
    add({2, 4, 5}, {Convolution(2, 2, activation::sigmoid), FullyConnected(2)}, "conv2d");
    add({1, 5, 4}, {FullyConnected(3), FullyConnected(2)}, "dense on 2d");
    add({7}, {LocallyConnected(2, 3), FullyConnected(2)}, "lc1d");
    add({2, 5}, {LocallyConnected(1, 2), FullyConnected(2)}, "lc1d channels");
    add({2, 5, 3}, {LocallyConnected(2, 2), FullyConnected(2)}, "lc2d");
    add({7}, {MaxPooling(3), FullyConnected(2)}, "maxpooling first 1d");
    add({2, 5}, {Convolution(2, 2), MaxPooling(2), FullyConnected(2)}, "conv pool 1d");
    add({2, 5, 5}, {Convolution(3, 2), MaxPooling(2), FullyConnected(2)}, "conv pool 2d");
    add({2, 6, 6}, {Convolution(2, 2), Convolution(2, 2), LocallyConnected(2, 2), FullyConnected(2)}, "conv conv lc");
    add({6}, {Convolution(2, 3), Recurrence(2)}, "conv recurrence", true);
    add({2, 6}, {FullyConnected(3), Convolution(2, 2)}, "dense conv, filter layer last");
    if (withOptimizers)
    {
        add({3}, {FullyConnected(5, activation::sigmoid, Dropout(0.4f)), FullyConnected(2)}, "dropout");
        add({2, 5}, {Convolution(2, 2, activation::ReLU, Dropout(0.3f)), FullyConnected(2)}, "conv dropout");
        add({3}, {FullyConnected(4, activation::tanh, L1Regularization(1e-3f)), FullyConnected(2)}, "l1");
        add({3}, {FullyConnected(4, activation::tanh, L2Regularization(1e-3f)), FullyConnected(2)}, "l2");
        add({3}, {FullyConnected(4, activation::tanh, ErrorMultiplier(0.5f)), FullyConnected(2)}, "error multiplier");
        add({3}, {FullyConnected(4), FullyConnected(3, activation::identity, Softmax())}, "softmax");
        add({3}, {FullyConnected(4, activation::sigmoid, L2Regularization(1e-3f), Dropout(0.2f), ErrorMultiplier(0.9f)), FullyConnected(2, activation::sigmoid, L1Regularization(1e-2f))}, "several optimizers");
        add({4}, {Recurrence(3, activation::tanh, Dropout(0.3f)), FullyConnected(2, activation::identity, Softmax())}, "recurrence dropout softmax", true);
    }
    return r;
}
inline std::unique_ptr<Net> build(const Arch& a, float lr = 0.05f, float mom = 0.0f) { return newNet(a.in, a.layers, lr, mom); }
template <class F> bool throws(F f)
{
    try { f(); } catch (...) { return true; }
    return false;
}
