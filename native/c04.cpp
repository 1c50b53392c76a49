#include "h.hpp"
using namespace snn;
static void one(const VI& in, int k, Rng& r, int mode)
{
    ctxmsg = S("max pooling input ", str(in), " kernel ", k, " mode ", mode); ++CASES;
    auto net = newNet(in, {MaxPooling(k)}); auto& L = *net->layers[0];
    VI s = in.size() == 1 ? VI{1, in[0]} : in;
    const bool two = s.size() == 3; const int C = s[0], X = s[1], Y = two ? s[2] : 1;
    const int OX = ceildiv(X, k), OY = two ? ceildiv(Y, k) : 1;
    for (int rep = 0; rep < 3; ++rep)
    {
        V x(C * X * Y);
        if (mode == 0) { std::iota(x.begin(), x.end(), 0.0f); for (size_t i = x.size(); i > 1; --i) std::swap(x[i - 1], x[r.below((int)i)]); }
        else if (mode == 1) x = r.vec(x.size(), -9, -1);
        else if (mode == 2) for (auto& v : x) v = (float)r.below(3);
        else for (auto& v : x) v = (r.below(2) ? -1.0f : 1.0f) * 1e30f * (float)r.unit();
        auto out = rep == 1 ? L.outputForTraining(x, rep == 0) : L.output(x, rep == 0);
        CHECK((int)out.size() == OX * OY * C, "number of outputs ", out.size());
        V e = r.vec(out.size(), -2, 2), ec = e; for (auto& v : ec) if (v == 0) v = 1; e = ec;
        auto back = L.backOutput(e);
        CHECK(back.size() == x.size(), "number of errors");
        std::vector<char> used(x.size(), 0);
        for (int p = 0; p < OX * OY; ++p) for (int c = 0; c < C; ++c)
        {
            float m = -INFINITY; int px = p % OX, py = p / OX; int hits = 0;
            auto each = [&](auto f) { for (int y = py * k; y < std::min(Y, two ? py * k + k : 1); ++y) for (int xx = px * k; xx < std::min(X, px * k + k); ++xx) f((y * X + xx) * C + c); };
            each([&](int i) { m = std::max(m, x[i]); });
            CHECK(out[p * C + c] == m, "output of window ", p, " channel ", c, " is ", out[p * C + c], ", maximum is ", m, " for input ", str(x));
            each([&](int i) { used[i]++; if (back[i] != 0) { ++hits; CHECK(back[i] == ec[p * C + c], "error of window ", p, " channel ", c); CHECK(x[i] == m, "error of window ", p, " on a cell that did not win, input ", str(x)); } });
            CHECK(hits == 1, "error of window ", p, " channel ", c, " reached ", hits, " cells for input ", str(x));
        }
        for (size_t i = 0; i < x.size(); ++i) CHECK(used[i] == 1, "cell ", i, " lies in ", (int)used[i], " windows");
    }
}
int main()
{
    Rng r(seed());
    for (int mode = 0; mode < 4; ++mode)
    {
        for (int x = 1; x <= 9; ++x) for (int k = 1; k <= x; ++k) { one({x}, k, r, mode); for (int c = 1; c <= 4; ++c) one({c, x}, k, r, mode); }
        for (int c = 1; c <= 3; ++c) for (int x = 1; x <= 7; ++x) for (int y = 1; y <= 7; ++y) for (int k = 1; k <= std::min(x, y); ++k) one({c, x, y}, k, r, mode);
        for (int it = 0; it < (thorough() ? 400 : 30); ++it) { int x = r.range(1, 20), y = r.range(1, 20); one({r.range(1, 6), x, y}, r.range(1, std::min(x, y)), r, mode); }
    }
    return finish();
}
