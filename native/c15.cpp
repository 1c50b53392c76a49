#include "h.hpp"
using namespace snn;
// limits: kind 0 epochs, 1 accuracy, 2 mae, 3 duration (ms)
struct Lim { int k; double v; };
static Wait mk(const Lim& l) { Wait w; switch (l.k) { case 0: w.epochs = (int)l.v; break; case 1: w.accuracy = (float)l.v; break; case 2: w.mae = (float)l.v; break; default: w.duration = (int)l.v; } return w; }
static bool reached(const Lim& l, int ep, float acc, float mae, int dur) { switch (l.k) { case 0: return ep > 0 && ep > (int)l.v; case 1: return acc >= 0 && acc >= (float)l.v; case 2: return mae >= 0 && mae <= (float)l.v; default: return dur >= (int)l.v; } }
int main()
{
    Rng r(seed());
    for (int rep = 0; rep < (thorough() ? 200000 : 40000); ++rep)
    {
        int n = r.range(1, 5); std::vector<Lim> ls; for (int i = 0; i < n; ++i) { int k = r.below(4); ls.push_back({k, k == 0 ? (double)r.range(0, 5) : k == 3 ? 1000.0 * r.range(0, 4) : r.below(4) ? r.range(0, 4) / 4.0 : r.unit()}); }
        bool any = r.below(2); ++CASES;
        // fold in a random shape: left to right or right to left
        auto fold = [&](std::vector<Lim> v, bool right) { std::vector<Wait> w; for (auto& l : v) w.push_back(mk(l)); if (right) { for (size_t i = w.size() - 1; i-- > 0;) { Wait a = w[i]; w[i] = any ? a || w[i + 1] : a && w[i + 1]; } return w[0]; } Wait acc = w[0]; for (size_t i = 1; i < w.size(); ++i) acc = any ? acc || w[i] : acc && w[i]; return acc; };
        auto sh = ls; for (size_t i = sh.size(); i-- > 1;) std::swap(sh[i], sh[r.below((int)i + 1)]);
        std::vector<Wait> ws{fold(ls, false), fold(ls, true), fold(sh, false)};
        for (int q = 0; q < 8; ++q)
        {
            int ep = r.range(0, 6), dur = 1000 * r.range(0, 5) + 500; float acc = r.below(5) ? (float)r.range(0, 4) / 4 : -1.0f, mae = r.below(5) ? (float)r.range(0, 4) / 4 : -1.0f; bool want = !any; if (n == 1) want = reached(ls[0], ep, acc, mae, dur); else for (auto& l : ls) want = any ? want || reached(l, ep, acc, mae, dur) : want && reached(l, ep, acc, mae, dur);
            for (size_t i = 0; i < ws.size(); ++i) { ws[i].start = std::chrono::system_clock::now() - std::chrono::milliseconds(dur); bool got = ws[i].isOver(ep, acc, mae); if (got != want) { std::string s; for (auto& l : ls) s += S(s.empty() ? "" : any ? " || " : " && ", l.v, std::vector<const char*>{"_ep", "_acc", "_mae", "_ms"}[l.k]); failed(S(s, i == 1 ? " (grouped from the right)" : i == 2 ? " (other order)" : "", " at epoch ", ep, ", accuracy ", acc, ", error ", mae, ", ", dur, " ms says ", got)); } }
        }
    }
    CHECK(throws([] { auto w = (1_ep || 1.0_acc); w && 1_s; }), "(a || b) && c does not throw"); CHECK(throws([] { auto w = (1_ep && 1.0_acc); w || 1_s; }), "(a && b) || c does not throw");
    CHECK(throws([] { auto a = 1_ep; auto b = 1.0_acc; b || 1_s; a && b; }), "a && (b || c) does not throw"); CHECK(throws([] { auto a = 1_ep; auto b = 1.0_acc; b && 1_s; a || b; }), "a || (b && c) does not throw");
    for (int i = 0; i < 200; ++i) { CHECK(operator""_ep(i).epochs == i, "_ep"); CHECK(operator""_ms(i).duration == i, "_ms"); CHECK(operator""_s(i).duration == 1000 * i, "_s"); CHECK(operator""_min(i).duration == 60000 * i, "_min"); CHECK(operator""_acc(i / 7.0L).accuracy == (float)(i / 7.0L), "_acc"); CHECK(operator""_mae(i / 7.0L).mae == (float)(i / 7.0L), "_mae"); for (auto w : {operator""_ep(i), operator""_ms(i), operator""_acc(i), operator""_mae(i)}) CHECK((w.epochs >= 0) + (w.accuracy >= 0) + (w.mae >= 0) + (w.duration >= 0) == 1, "a literal sets several limits"); ++CASES; }
    Wait none; none.startClock(); CHECK(!none.isOver(5, 1, 0), "no limit at all stops"); { Wait w = 50_ms; w.startClock(); CHECK(!w.isOver(1, 0, 1), "clock not restarted"); std::this_thread::sleep_for(std::chrono::milliseconds(60)); CHECK(w.isOver(1, 0, 1), "duration ignored"); }
    return finish();
}
