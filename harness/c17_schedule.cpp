// C17: the estimates do not depend on when messages are handed over and steps are run, nor on the time origin of the stamps.
#include "sim.hpp"
#include <cstdlib>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
struct Run { std::vector<sim::Pub> updates; sim::Pub last; bool initialised = false; int steps = 0; };

double worst(const sim::Pub &a, const sim::Pub &b) {
    if (a.ok != b.ok) return 1e9;
    if (!a.ok) return 0;
    return std::max({(a.p - b.p).norm(), (a.v - b.v).norm(), angle(a.q, b.q), (a.ba - b.ba).norm(), (a.bg - b.bg).norm(), std::fabs(a.t - b.t)});
}
std::string show(const sim::Pub &a) { return a.ok ? "t " + std::to_string(a.t) + " p " + str(a.p) + " v " + str(a.v) + " q " + str(a.q) + " bias " + str(a.ba) + " " + str(a.bg) : "none"; }

// hands over the messages in the given order; steps[i] steps are run after message i, all that are possible at the end
Run run(const sim::Scenario &c, const sim::Stream &st, const std::vector<sim::Event> &order, const std::vector<int> &steps) {
    std::srand(1);
    Run r;
    Backend b;
    PBT_CHECK(sim::configure(b, c.cfg), "the configuration is not accepted");
    auto step = [&]() {
        if (!b.RunOnce()) return false;
        ++r.steps;
        auto u = sim::updated(b);
        if (u.ok && (r.updates.empty() || !sim::same(u, r.updates.back()))) r.updates.push_back(u);
        return true;
    };
    for (std::size_t i = 0; i < order.size(); ++i) {
        sim::push(b, st, order[i]);
        for (int k = 0; k < steps[i] && step(); ++k) {}
    }
    while (step()) {}
    r.last = sim::latest(b);
    r.initialised = b.status != NEED_INIT;
    return r;
}
void compare(const Run &a, const Run &b, double tol, const std::string &what) {
    PBT_CHECK(a.initialised == b.initialised, what << ": initialised " << b.initialised << ", expected " << a.initialised);
    PBT_CHECK(a.updates.size() == b.updates.size(), what << ": " << b.updates.size() << " updated states, expected " << a.updates.size());
    for (std::size_t i = 0; i < a.updates.size(); ++i) PBT_CHECK(worst(a.updates[i], b.updates[i]) <= tol, what << ": updated state " << i << " is " << show(b.updates[i]) << ", expected " << show(a.updates[i]));
    PBT_CHECK(worst(a.last, b.last) <= tol, what << ": the last state is " << show(b.last) << ", expected " << show(a.last));
}
sim::Scenario make(pbt::Src &s, pbt::Ctx &x) {
    const sim::Kind k = s.pick<sim::Kind>({sim::BIAS_NOISE, sim::EXACT, sim::BIAS, sim::NOISE});
    sim::Scenario c = sim::scenario(s, k, 1.5 + s.real(0, 1.5));
    if (c.imgShift < 0) c.imgShift = -c.imgShift;
    if (c.cfg.maxFeatures > 30) c.cfg.maxFeatures = 30;
    c.perFrame = std::min(c.perFrame, 60);
    sim::describe(x, c, k);
    return c;
}

void interleave(pbt::Src &s, pbt::Ctx &x) {
    sim::Scenario c = make(s, x);
    auto st = sim::simulate(c);
    if (sim::fewest(st) < 12) throw pbt::Discard{};
    if (s.chance(1, 3)) {                                               // the images end before the inertial measurements
        const double end = st.order.back().t - s.real(0, 0.8);
        st.order.erase(std::remove_if(st.order.begin(), st.order.end(), [&](auto &o) { return o.image && o.t > end; }), st.order.end());
        x.desc << "no images after " << end - st.order.front().t << " s; ";
    }
    const std::size_t n = st.order.size();
    Run ref = run(c, st, st.order, std::vector<int>(n, 1 << 20));       // every message is processed when it arrives
    x.nontrivial(ref.updates.size() > 8);
    // images arrive late, by up to `lag` messages, but in their own order; the first message stays first: it sets the time origin
    const int lag = s.pick<int>({0, 0, 3, 20, 100, 200});
    std::vector<std::pair<double, sim::Event>> keyed;
    double lastImg = -1;
    for (std::size_t i = 0; i < n; ++i) {
        double k = double(i);
        if (st.order[i].image) { k = std::max(k + s.range(0, lag) + 0.5, lastImg + 1e-3); lastImg = k; }
        keyed.push_back({i == 0 ? -1 : k, st.order[i]});
    }
    std::stable_sort(keyed.begin(), keyed.end(), [](auto &a, auto &b) { return a.first < b.first; });
    std::vector<sim::Event> order;
    for (auto &k : keyed) order.push_back(k.second);
    // backlog: nothing is run for a while, then some or all
    std::vector<int> steps(n, 0);
    const int mode = s.range(0, 3);
    for (std::size_t i = 0; i < n; ++i) steps[i] = mode == 0 ? 1 << 20 : mode == 1 ? 0 : mode == 2 ? s.range(0, 2) : (s.chance(1, 40) ? 1 << 20 : 0);
    x.desc << "images late by up to " << lag << " messages; steps: " << (mode == 0 ? "all after each message" : mode == 1 ? "all at the end" : mode == 2 ? "0 to 2 after each message" : "all, now and then");
    x.label(lag ? "late images" : "images in time");
    x.label(mode == 0 ? "always drained" : mode == 1 ? "run at the end" : mode == 2 ? "random steps" : "bursts");
    Run got = run(c, st, order, steps);
    compare(ref, got, 1e-3, "another schedule");
}

void origin(pbt::Src &s, pbt::Ctx &x) {
    sim::Scenario c = make(s, x);
    c.cfg.imuHz = s.pick<double>({128, 256});                           // all stamps are exact, whatever the offset
    c.imgShift = s.chance(1, 2) ? 0 : c.period() * 0.25;
    c.imgEvery = std::max(4, c.imgEvery / 2);
    c.t0 = 0;
    auto st = sim::simulate(c);
    if (sim::fewest(st) < 12) throw pbt::Discard{};
    std::vector<int> steps(st.order.size(), 1 << 20);
    Run ref = run(c, st, st.order, steps);
    x.nontrivial(ref.updates.size() > 8);
    const double off = s.pick<double>({1.6e9, 1e3, -1e3, 1.0 / 1024, 4503599.5, -1.6e9});
    x.desc << "offset " << off;
    sim::Stream sh;
    for (auto &m : st.imu) { sh.imu.push_back(sim::copy(m)); sh.imu.back()->timeStamp += off; }
    for (auto &m : st.img) { sh.img.push_back(sim::copy(m)); sh.img.back()->timeStamp += off; }
    sh.order = st.order;
    // the offset may also be one to a first message long before the others
    const bool early = s.chance(1, 2);
    if (early) {
        const double before = s.pick<double>({100, 1e4, 1e6, 3.5e7});
        sh.img.push_back(std::make_shared<FeaturesMessage>(std::vector<std::uint32_t>(), std::vector<std::shared_ptr<FeatureObserve>>(), std::vector<std::uint8_t>(), off - before));
        sh.order.insert(sh.order.begin(), sim::Event{off - before, true, int(sh.img.size()) - 1});
        steps.push_back(1 << 20);
        for (auto &u : ref.updates) u.t += before;
        if (ref.last.ok) ref.last.t += before;
        x.desc << ", after an empty image " << before << " s before";
    }
    x.label("a message long before the others", early);
    Run got = run(c, sh, sh.order, steps);
    compare(ref, got, 1e-4, "time shifted by " + std::to_string(off));
    x.label(c.imgShift != 0 ? "images between measurements" : "images at measurements");
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C17",
            "simulated streams processed under two schedules or time origins, all updated states and the last state compared; non-trivial when more than eight updated states were compared",
            {"an image is handed over after the inertial measurements up to its time, and each kind in its own order", "images fall at a measurement or less than half a period after one: nearer to the next, "
             "a step run before that one arrives has to take the earlier", "features beyond the configured limit are drawn by std::rand, seeded alike for both runs"},
            {{"interleave", interleave, 150, 4000}, {"origin", origin, 80, 2000}}};
}
