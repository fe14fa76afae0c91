// C22: estimators in one process do not influence each other.
#include "sim.hpp"
#include "isolate.hpp"
#include <cstdlib>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
struct Life {                                                         // one estimator and what is done to it
    sim::Scenario c;
    sim::Stream st;
    std::vector<std::size_t> resets;                                  // before these messages
    bool pushOnlyFirst = false;                                       // the first messages are all pushed before any step
    std::size_t backlog = 0;
};
Life make(pbt::Src &s, pbt::Ctx &x) {
    Life l;
    const sim::Kind k = s.pick<sim::Kind>({sim::EXACT, sim::BIAS_NOISE, sim::BIAS, sim::NOISE});
    l.c = sim::scenario(s, k, s.real(1.0, 1.6));
    auto &g = l.c.cfg;
    if (s.chance(2, 3)) { g.na = s.logReal(1e-3, 0.1); g.ng = s.logReal(1e-3, 0.1); g.nwa = s.logReal(1e-5, 1e-2); g.nwg = s.logReal(1e-6, 1e-3); g.sigma = s.logReal(0.001, 0.01); }
    l.c.perFrame = std::min(l.c.perFrame, 40);
    l.c.cfg.maxFeatures = std::min(l.c.cfg.maxFeatures, 30);
    if (s.chance(1, 8)) l.c.cfg.ext.resize(1);                        // one that never starts
    l.st = sim::simulate(l.c);
    if (l.c.cfg.ext.size() > 1 && sim::fewest(l.st) < 12) throw pbt::Discard{};
    for (int r = s.chance(1, 3) ? s.range(1, 2) : 0; r > 0; --r) l.resets.push_back(s.choice(l.st.order.size() - 1));
    l.backlog = s.chance(1, 4) ? s.choice(60) : 0;
    sim::describe(x, l.c, k);
    x.desc << l.resets.size() << " resets, backlog " << l.backlog << "\n";
    return l;
}

struct Step { bool ran = false; int who = 0, status = 0; sim::Pub last, upd; };
// an estimator at work; what it draws from std::rand depends on its own steps only
class Runner {
public:
    Runner(const Life &l, int who) : l_(l), who_(who) {}
    std::size_t calls() const { return l_.st.order.size() + 1; }
    void next(std::vector<Step> &out) {
        if (!b_) { b_ = std::make_unique<Backend>(); PBT_CHECK(sim::configure(*b_, l_.c.cfg), "the configuration is not accepted"); return; }
        for (auto r : l_.resets) if (r == at_) b_->Reset();
        sim::push(*b_, l_.st, l_.st.order[at_++]);
        ++pending_;
        if (at_ <= l_.backlog && at_ < l_.st.order.size()) return;
        for (; pending_ > 0; --pending_) {
            std::srand(unsigned(++step_ * 7 + who_));
            Step k;
            k.who = who_;
            k.ran = b_->RunOnce();
            k.last = sim::latest(*b_);
            k.upd = sim::updated(*b_);
            k.status = b_->status;
            out.push_back(k);
        }
    }
    void drop() { b_.reset(); }
private:
    const Life &l_;
    int who_;
    std::unique_ptr<Backend> b_;
    std::size_t at_ = 0, pending_ = 0;
    unsigned step_ = 0;
};
double apart(const sim::Pub &a, const sim::Pub &b) {
    if (a.ok != b.ok) return 1e9;
    if (!a.ok) return 0;
    return std::max({(a.p - b.p).norm(), (a.v - b.v).norm(), angle(a.q, b.q), (a.ba - b.ba).norm(), (a.bg - b.bg).norm(), std::fabs(a.t - b.t)});
}
std::string show(const sim::Pub &a) { return a.ok ? "t " + std::to_string(a.t) + " p " + str(a.p) + " v " + str(a.v) + " q " + str(a.q) + " bias " + str(a.ba) + " " + str(a.bg) : "none"; }

// Every run has a process of its own: alone is really alone, and nothing is left of earlier cases.
void together(pbt::Src &s, pbt::Ctx &x) {
    const int n = s.chance(1, 5) ? 3 : 2;
    std::vector<Life> lives;
    for (int i = 0; i < n; ++i) lives.push_back(make(s, x));
    if (s.chance(1, 4)) lives[1].c = lives[0].c, lives[1].st = lives[0].st;                // the same data at different times
    // interleave: turns of random length; one may begin late or end early
    const int turn = s.pick<int>({1, 4, 30, 200});
    const int dropped = s.chance(1, 4) ? s.range(0, n - 1) : -1;
    const std::size_t dropAt = std::size_t(s.range(1, 400));
    x.desc << n << " estimators, turns of up to " << turn << " messages, " << (dropped < 0 ? std::string("all to the end") : "number " + std::to_string(dropped) + " ends after " + std::to_string(dropAt) + " calls");
    std::vector<std::size_t> left;
    for (auto &l : lives) left.push_back(l.st.order.size() + 1);
    std::vector<int> schedule;
    int turns = 0;
    for (;;) {
        std::vector<int> open;
        for (int i = 0; i < n; ++i) if (left[i] > 0) open.push_back(i);
        if (open.empty()) break;
        const int i = open[s.choice(open.size() - 1)];
        ++turns;
        for (int k = s.range(1, turn); k > 0 && left[i] > 0; --k) {
            schedule.push_back(i);
            --left[i];
            if (schedule.size() == dropAt && dropped >= 0) left[dropped] = 0;
        }
    }
    std::vector<std::vector<Step>> alone, both(n);
    for (int i = 0; i < n; ++i) alone.push_back(inOwnProcess<Step>([&] {
        std::vector<Step> out;
        Runner r(lives[i], i);
        for (std::size_t k = 0; k < r.calls(); ++k) r.next(out);
        return out;
    }, "the run of estimator " + std::to_string(i) + " alone"));
    for (auto &k : inOwnProcess<Step>([&] {
        std::vector<Step> out;
        std::vector<std::unique_ptr<Runner>> r;
        for (int i = 0; i < n; ++i) r.push_back(std::make_unique<Runner>(lives[i], i));
        for (std::size_t k = 0; k < schedule.size(); ++k) {
            r[schedule[k]]->next(out);
            if (k + 1 == dropAt && dropped >= 0) r[dropped]->drop();
        }
        return out;
    }, "the run of all estimators")) both[k.who].push_back(k);
    int tracked = 0;
    for (int i = 0; i < n; ++i) {
        auto &a = alone[i], &b = both[i];
        PBT_CHECK(b.size() == a.size() || (i == dropped && b.size() < a.size()), "estimator " << i << " ran " << b.size() << " steps, alone " << a.size());
        for (std::size_t k = 0; k < b.size(); ++k) {
            PBT_CHECK(a[k].ran == b[k].ran && a[k].status == b[k].status, "estimator " << i << ", step " << k << ": returns " << b[k].ran << " with status " << b[k].status << ", alone " << a[k].ran << " with " << a[k].status);
            PBT_CHECK(apart(a[k].last, b[k].last) < 1e-4, "estimator " << i << ", step " << k << ": latest state " << show(b[k].last) << ", alone " << show(a[k].last));
            PBT_CHECK(apart(a[k].upd, b[k].upd) < 1e-4, "estimator " << i << ", step " << k << ": updated state " << show(b[k].upd) << ", alone " << show(a[k].upd));
        }
        tracked += !b.empty() && b.back().last.ok;
    }
    x.label("three", n == 3);
    x.label("one ends early", dropped >= 0);
    x.label("resets", !lives[0].resets.empty() || !lives[1].resets.empty());
    x.label("different gravity", lives[0].c.cfg.gravity != lives[1].c.cfg.gravity);
    x.nontrivial(tracked >= 2 && turns > 4);
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C22",
            "two or three estimators with their own configurations (noise, rig, window, gravity...) and streams run alone and interleaved, each run in a process of its own, compared after every step; non-trivial when at least two of them tracked and took more than four turns",
            {"one thread", "complete configuration folders (what a folder lacks is kept from the one read before, C03)", "std::rand is seeded before every step by the estimator and step, so that draws are those it would make alone"},
            {{"together", together, 400, 12000}}};
}
