#include "h.hpp"
using namespace snn;
int main()
{
    Rng r(seed());
    auto mkrows = [&](int n, int d) { vector2D<float> v; for (int i = 0; i < n; ++i) v.push_back(r.vec(d)); return v; };
    auto labels = [&](int n, int l) { vector2D<float> v; for (int i = 0; i < n; ++i) { V y(l, 0.0f); if (l) y[r.below(l)] = 1; v.push_back(y); } return v; };
    for (int rep = 0; rep < (thorough() ? 40000 : 6000); ++rep)
    {
        int n = r.range(0, 4), m = r.below(4) ? n : r.range(0, 4), tn = r.range(0, 3), tm = r.below(4) ? tn : r.range(0, 3), d = r.range(1, 3), l = r.range(1, 3), pk = r.below(3), nk = r.below(3), rec = nk == 2 ? r.range(-1, 3) : r.range(0, 2); bool bad = n == 0 || m == 0 || n != m || tn != tm || (pk == 0 && l < 2) || (nk == 2 && rec < 1); ++CASES;
        auto a = mkrows(n, d), b = labels(m, l), c = mkrows(tn, d), e = labels(tm, l); const bool ragged = r.below(4) == 0;
        if (ragged) { auto* v = std::vector<vector2D<float>*>{&a, &b, &c, &e}[r.below(4)]; if (!v->empty()) { int i = r.below((int)v->size()); if (r.below(2)) (*v)[i].push_back(0); else (*v)[i].pop_back(); bool lone = v->size() == 1 && (v == &a || v == &b); if (!lone) bad = true; else bad = bad || (v == &a ? tn > 0 || false : tm > 0) || (v == &b && pk == 0 && b[0].size() < 2); } }
        const problem ps[] = {problem::classification, problem::multipleClassification, problem::regression}; auto tell = [&] { return S("problem ", pk, ", nature ", nk, ", ", n, " training inputs, ", m, " training labels, ", tn, " testing inputs, ", tm, " testing labels, data size ", d, ", labels ", l, ", recurrences ", rec, ragged ? ", rows differ in size" : ""); };
        if (nk == 1)
        {
            // cut the rows into sequences; sometimes one is empty
            auto cut = [&](const vector2D<float>& v, bool& empty) { vector3D<float> s; size_t i = 0; while (i < v.size()) { size_t k = std::min(v.size() - i, (size_t)r.range(1, 3)); s.emplace_back(v.begin() + i, v.begin() + i + k); i += k; } if (r.below(6) == 0) { s.insert(s.begin() + r.below((int)s.size() + 1), vector2D<float>{}); empty = true; } return s; };
            bool empty = false; auto sa = cut(a, empty), sc = cut(c, empty); bool got = throws([&] { Data q(ps[pk], sa, b, sc, e, nature::sequential); }); CHECK(got == (bad || empty), tell(), empty ? ", an empty sequence" : "", got ? ": refused" : ": accepted");
            bool e2 = false; auto sx = cut(a, e2); bool bad2 = n == 0 || m == 0 || n != m || (pk == 0 && m > 0 && b[0].size() < 2); for (auto& v : a) bad2 = bad2 || v.size() != a.back().size(); for (auto& v : b) bad2 = bad2 || v.size() != b.back().size(); got = throws([&] { Data q(ps[pk], sx, b, nature::sequential); }); CHECK(got == (bad2 || e2), tell(), " same set for training and testing", got ? ": refused" : ": accepted");
        }
        else { bool got = throws([&] { Data q(ps[pk], a, b, c, e, nk == 2 ? nature::timeSeries : nature::nonTemporal, rec); }); CHECK(got == bad, tell(), got ? ": refused" : ": accepted"); }
    }
    for (int rep = 0; rep < (thorough() ? 4000 : 500); ++rep)
    {
        int n = r.range(1, 5), d = r.range(1, 3), l = r.range(2, 3), nk = r.below(3), d2 = r.below(3) ? d : r.range(1, 3), l2 = r.below(3) ? l : r.range(2, 3), b = r.below(3) == 0 ? 1 : r.range(-1, n + 2); auto a = mkrows(n, d), y = labels(n, l); ++CASES;
        std::unique_ptr<Data> data; if (nk == 1) { vector3D<float> s{a}; data = std::make_unique<Data>(problem::classification, s, y, nature::sequential); } else data = std::make_unique<Data>(problem::classification, a, y, nk == 2 ? nature::timeSeries : nature::nonTemporal, nk == 2 ? 1 : 0);
        auto net = newNet({d2}, {FullyConnected(l2)}); auto w = weightsOf(*net); bool bad = d != d2 || l != l2 || b < 1 || b > n || (nk != 0 && b != 1); ctxmsg = S("train: network ", d2, " to ", l2, ", data ", d, " to ", l, ", ", n, " rows, nature ", nk, ", batch size ", b);
        bool got = throws([&] { net->train(*data, 1_ep, b, r.below(2)); }); CHECK(got == bad, got ? "refused" : "accepted"); if (bad) CHECK(w == weightsOf(*net) && net->getNumberOfTraining() == 0 && !net->isTraining(), "the network changed although training was refused"); else CHECK(net->getNumberOfTraining() > 0 || nk == 2, "nothing was trained");
        if (bad) { CHECK(throws([&] { net->startTrainingAsync(*data, b, 0); }), "asynchronous training was accepted"); CHECK(w == weightsOf(*net) && !net->isTraining(), "changed by a refused asynchronous training"); }
    }
    return finish();
}
