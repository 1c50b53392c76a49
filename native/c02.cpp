#include "h.hpp"
#include <climits>
using namespace snn;
static bool builds(const Models& m)
{
    ++CASES;
    try { Models c = m; Net n(c, StochasticGradientDescent(0.05f, 0.0f)); return true; }
    catch (std::exception&) { return false; }
}
static void yes(const Models& m, const std::string& s) { CHECK(builds(m), "refused although possible: ", s); }
static void no(const Models& m, const std::string& s) { CHECK(!builds(m), "accepted although impossible: ", s); }
int main()
{
    auto D = FullyConnected(2);
    no({}, "empty list"); no({D}, "no input"); no({D, D}, "first is not an input"); no({inputModel({3})}, "no layer after the input");
    no({Convolution(1, 1), D}, "first is not an input");
    no({inputModel({3}), inputModel({3})}, "second input"); no({inputModel({3}), D, inputModel({2})}, "second input after a layer");
    no({inputModel({3}), D, inputModel({2}), D}, "input in the middle");
    no({inputModel({}), D}, "input without dimension");
    std::vector<LayerModel> kinds{D, Recurrence(2), GruLayer(2), MaxPooling(1), LocallyConnected(1, 1), Convolution(1, 1)};
    for (auto& k : kinds)
        for (int bad : {0, -1, -5, INT_MIN, INT_MIN + 1})
            for (int other : {1, 3, INT_MAX})
            {
                no({inputModel({bad}), k}, S("size ", bad, " type ", k.type));
                no({inputModel({bad, other}), k}, S("size ", bad, "x", other, " type ", k.type)); no({inputModel({other, bad}), k}, S("size ", other, "x", bad, " type ", k.type));
                no({inputModel({bad, other, 2}), k}, S("size ", bad, "x", other, "x2")); no({inputModel({2, bad, other}), k}, S("size 2x", bad, "x", other)); no({inputModel({2, other, bad}), k}, S("size 2x", other, "x", bad));
                no({inputModel({bad, bad}), k}, S("size ", bad, "x", bad));
            }
    // products that overflow or are too large
    for (auto& k : kinds)
        for (auto& s : std::vector<VI>{{1000001}, {2073601}, {INT_MAX}, {1001, 1000}, {65536, 65536}, {2, 1000, 1000}, {46341, 46341}, {65536, 65536, 65536}, {1 << 16, 1 << 16, 1}, {3, 715827883}, {100, 100, 101}, {1024, 1024, 4096}})
            no({inputModel(s), k}, S("too many inputs ", str(s), " type ", k.type));
    // filter layers
    for (int ty = 0; ty < 3; ++ty)
    {
        auto mk = [&](int f, int k) { return ty == 0 ? Convolution(f, k) : ty == 1 ? LocallyConnected(f, k) : MaxPooling(k); };
        std::string nm = ty == 0 ? "convolution" : ty == 1 ? "locally connected" : "max pooling";
        for (int k : {0, -1, -2, INT_MIN, INT_MAX}) for (auto& s : std::vector<VI>{{5}, {2, 5}, {2, 5, 5}, {1}})
            no({inputModel(s), mk(1, k)}, S(nm, " kernel ", k, " on ", str(s)));
        if (ty < 2) for (int f : {0, -1, -3, INT_MIN, 1000001, INT_MAX}) for (auto& s : std::vector<VI>{{5}, {2, 5}, {2, 5, 5}})
            no({inputModel(s), mk(f, 2)}, S(nm, " filters ", f, " on ", str(s)));
        if (ty < 2) for (auto& a : std::vector<VI>{{50000}, {1, 50000}, {1, 50000, 1}, {1, 200, 250}}) no({inputModel(a), mk(50000, 1)}, S(nm, " 2500000000 outputs on ", str(a)));
        no({inputModel({2, 3, 3, 3}), mk(1, 1)}, nm + " on four dimensions"); no({inputModel({1, 1, 1, 1, 1}), mk(1, 1)}, nm + " on five dimensions");
        for (int x = 1; x <= 6; ++x)
            for (int k = 1; k <= 8; ++k)
            {
                for (int c : {1, 2, 7}) { auto m = Models{inputModel({c, x}), mk(2, k)}; if (k <= x) yes(m, S(nm, " kernel ", k, " on ", c, "x", x)); else no(m, S(nm, " kernel ", k, " on ", c, "x", x)); }
                auto m = Models{inputModel({x}), mk(2, k)}; if (k <= x) yes(m, S(nm, " kernel ", k, " on ", x)); else no(m, S(nm, " kernel ", k, " on ", x));
                for (int y = 1; y <= 6; ++y) { auto m2 = Models{inputModel({2, x, y}), mk(1, k)}; if (k <= x && k <= y) yes(m2, S(nm, " kernel ", k, " on 2x", x, "x", y)); else no(m2, S(nm, " kernel ", k, " on 2x", x, "x", y)); }
            }
        // a layer whose input became too small
        no({inputModel({6}), Convolution(1, 4), mk(1, 4)}, nm + " kernel larger than the previous output");
        no({inputModel({2, 6, 6}), MaxPooling(3), mk(1, 3)}, nm + " kernel larger than the previous output");
        yes({inputModel({6}), Convolution(2, 4), mk(1, 3)}, nm + " kernel fits the previous output");
    }
    for (auto& a : allArchs(true)) { Models m{inputModel(a.in)}; for (auto& l : a.layers) m.push_back(l); yes(m, a.name); }
    yes({inputModel({999999}), FullyConnected(1)}, "999999 inputs"); no({inputModel({1000000}), FullyConnected(1)}, "a neuron with more than one million weights");
    yes({inputModel({1000, 1000}), MaxPooling(500), FullyConnected(1)}, "1000x1000 inputs");
    // a later layer with too many inputs
    no({inputModel({1}), FullyConnected(1000), Convolution(1002, 1), FullyConnected(1)}, "later layer with more than one million inputs");
    { Models m{inputModel({2})}; for (int i = 0; i < 999; ++i) m.push_back(FullyConnected(1)); yes(m, "999 layers"); m.push_back(FullyConnected(1)); m.push_back(FullyConnected(1)); no(m, "1001 layers"); }
    return finish();
}
