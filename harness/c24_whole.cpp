// C24: a whole run is that of the filter its parts make up: levelling, start, propagation, updates and window.
#include "whole.hpp"
#include <cstdlib>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
// what rigs, motions, scenes and rates the scenarios of the other properties leave out
void unusual(pbt::Src &s, pbt::Ctx &x, sim::Scenario &c) {
    if (s.chance(1, 2)) c.mot.q0 = rot(s);
    if (s.chance(1, 3)) c.mot = [&] { auto m = sim::motion(s, s.logReal(3, 15), s.real(0, 4)); m.q0 = c.mot.q0; return m; }();
    if (s.chance(1, 3)) { c.fov = s.pick<double>({0.9, 2}); c.near = s.pick<double>({2, 0.8}); c.far = s.pick<double>({10, 50}); c.landmarks = 900; }
    if (s.chance(1, 3)) c.cfg.imuHz = s.pick<double>({50, 1000, 30});
    if (s.chance(1, 3)) c.cfg.gravity = s.pick<double>({1.62, 25, 9.81});
    switch (s.range(0, 3)) {                                           // (the velocity at the start is a way over the time between two images: 20 ms at least)
    case 1: c.imgEvery = 1; c.cfg.imuHz = s.pick<double>({50, 40, 30, 20}); c.duration = std::min(c.duration, 0.6 + 40 / c.cfg.imuHz); break;
    case 2: c.imgEvery = std::max(1, int(std::lround(c.cfg.imuHz * s.pick<double>({0.2, 0.5, 1})))); c.duration *= 2; break;
    case 3: c.imgEvery = s.range(2, 5); c.cfg.imuHz = std::min(c.cfg.imuHz, 100.0); break;
    default: c.imgEvery = std::max(2, int(std::lround(c.cfg.imuHz * 0.08)));
    }
    c.firstImage = s.range(0, 3) * c.imgEvery;
    if (s.chance(1, 3)) c.cfg.window = s.range(10, 25);
    if (s.chance(1, 8)) c.perFrame = 90;
    if (c.imgEvery * c.period() > 0.1) { c.cfg.nwa = std::min(c.cfg.nwa, 0.02); c.cfg.nwg = std::min(c.cfg.nwg, 0.01); }
    const int images = c.cfg.window > 9 ? 30 : 45;                     // as many as time allows
    c.duration = std::min(c.duration, c.firstImage * c.period() + images * c.imgEvery * c.period());
    x.label("image at every measurement", c.imgEvery == 1);
}
enum Form { PLAIN, RESETS, UNUSUAL, LONG };
void run(pbt::Src &s, pbt::Ctx &x, Form form) {
    const bool resets = form == RESETS, odd = form == UNUSUAL;
    const sim::Kind k = s.pick<sim::Kind>({sim::BIAS_NOISE, sim::EXACT, sim::BIAS, sim::NOISE});
    const bool wrong = form != LONG && s.chance(1, 4);                                // a bias that was not configured, and may be learnt quickly
    sim::Scenario c = sim::scenario(s, k, wrong && resets ? s.real(2.0, 4.0) : s.real(1.0, 2.5));
    c.perFrame = s.pick<int>({20, 30, 14, 40});
    c.cfg.maxFeatures = 200;                                          // all are used
    c.cfg.window = s.range(1, 9);
    c.cfg.tracked = s.pick<int>({10, 20, 5, 28, 0});
    c.cfg.na = s.logReal(1e-3, 0.1); c.cfg.ng = s.logReal(1e-3, 0.1); c.cfg.nwa = s.logReal(1e-5, 1e-2); c.cfg.nwg = s.logReal(1e-6, 1e-3);
    if (wrong) { c.cfg.nwa = s.logReal(1e-2, odd ? 1 : 3); c.cfg.nwg = s.logReal(1e-3, 1); }
    c.cfg.sigma = s.logReal(0.0003, 0.01);
    if (odd) unusual(s, x, c);
    if (form == LONG) {                                                // hundreds of images; the choice of key frames is never close
        c.cfg.imuHz = s.pick<double>({50, 100});
        c.imgEvery = int(c.cfg.imuHz * 0.08);
        c.firstImage = c.imgEvery;
        c.duration = s.range(270, 330) * 0.08;
        c.perFrame = s.pick<int>({16, 20});
        c.landmarks = 1500;
        c.mot.drift *= 0.3; c.mot.v0 *= 0.1;
        c.cfg.window = s.range(2, 4);
        c.cfg.tracked = s.chance(3, 4) ? 1000 : 0;
        if (c.cfg.tracked == 0) c.cfg.parallax = c.cfg.translation = 1000;
        c.cfg.nwa = std::min(c.cfg.nwa, 1e-3); c.cfg.nwg = std::min(c.cfg.nwg, 1e-4);
    }
    const int lag = s.pick<int>({0, 0, 2, 15, 60, 150});                   // images are handed over up to so many messages late
    if (c.imgShift) c.imgShift = s.real(-0.45, lag ? 0.95 : 0.5) * c.period();
    if (c.firstImage == 0 && c.imgShift < 0) c.imgShift = -c.imgShift;
    sim::describe(x, c, k);
    x.desc << "noise set to " << c.cfg.na << " " << c.cfg.ng << " " << c.cfg.nwa << " " << c.cfg.nwg << ", vision " << c.cfg.sigma << "; ";
    auto st = sim::simulate(c);
    if (sim::fewest(st) < 12) throw pbt::Discard{};
    if (wrong) {
        const V3 up = d(st.imu.front()->accel).normalized(), side = up.cross(dir(s));
        if (side.norm() < 0.1) throw pbt::Discard{};
        const V3 ea = side.normalized() * s.real(0, 0.4), eg = vec(s, 0.05);
        for (auto &m : st.imu) { m->accel += f(ea); m->gyro += f(eg); }
        x.desc << "biases further off by " << str(ea) << " " << str(eg) << "; ";
    }
    const double fewer = s.pick<double>({0, 0, 0.2, 0.5}), gaps = s.pick<double>({0, 0, 0.05, 0.3});
    if (fewer + gaps > 0) sim::thin(st, fewer, gaps, c.seed);
    x.desc << "observations left out: " << fewer << " of cameras, " << gaps << " of images; ";
    if (lag) {
        std::vector<std::pair<double, sim::Event>> keyed;
        double lastImg = -1;
        for (std::size_t i = 0; i < st.order.size(); ++i) {
            double key = double(i);
            if (i && st.order[i].image) { key = std::max(key + s.range(0, lag) + 0.5, lastImg + 1e-3); lastImg = key; }
            keyed.push_back({key, st.order[i]});
        }
        std::stable_sort(keyed.begin(), keyed.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (std::size_t i = 0; i < keyed.size(); ++i) st.order[i] = keyed[i].second;
        x.desc << "images late by up to " << lag << " messages; ";
    }
    std::vector<std::size_t> at;
    if (resets) for (int i = s.range(1, 3); i > 0; --i) at.push_back(s.choice(st.order.size() - 1));
    for (auto r : at) x.desc << "reset before message " << r << "; ";
    std::srand(1);
    Backend b;
    PBT_CHECK(sim::configure(b, c.cfg), "the configuration is not accepted");
    whole::Estimator ref(c.cfg);
    const double origin = st.order.front().t;
    whole::Apart m;
    const bool dump = getenv("VT_DUMP");
    int images = 0;
    for (std::size_t i = 0; i < st.order.size(); ++i) {
        auto &o = st.order[i];
        for (auto r : at) if (r == i) { b.Reset(); ref.reset(); }
        whole::push(ref, st, o, origin);
        if (ref.doubt < 1) { x.label("ended at an unclear decision"); break; } // one that single precision may take otherwise
        sim::push(b, st, o);
        b.RunOnce();
        const std::string bad = whole::differs(ref, b, dump ? &m : nullptr, odd ? 8 : form == LONG ? 4 : 1);
        PBT_CHECK(bad.empty(), "after message " << i << " at " << o.t - origin << " s (" << images << " images since the start) " << bad);
        images += ref.tracking && o.image;
    }
    if (dump) { FILE *f = fopen(getenv("VT_DUMP"), "a"); fprintf(f, "kind %d nwa %g g %g every %d hz %g win %d fov %g P %g V %g p %g v %g q %g ba %g bg %g\n", int(k), c.cfg.nwa, c.cfg.gravity, c.imgEvery, c.cfg.imuHz, c.cfg.window, c.fov, ref.last.p.norm(), ref.last.v.norm(), m.p, m.v, m.q, m.ba, m.bg); fclose(f); }
    x.label("oldest and sub-newest dropped", ref.keys > 1 && ref.subs > 0);
    x.label("only oldest dropped", ref.keys > 0 && ref.subs == 0);
    x.label("images late", lag > 0);
    x.label("cameras miss tracks", fewer > 0);
    x.label("tracks interrupted", gaps > 0);
    x.label("started again", ref.starts > 1);
    x.label("wrong biases", wrong);
    x.label("more than 255 images", images > 255);
    x.label(sim::name(k));
    x.nontrivial(images > 6 && ref.points > 60);
}
void runs(pbt::Src &s, pbt::Ctx &x) { run(s, x, PLAIN); }
void resets(pbt::Src &s, pbt::Ctx &x) { run(s, x, RESETS); }
void longRuns(pbt::Src &s, pbt::Ctx &x) { run(s, x, LONG); }
void odd(pbt::Src &s, pbt::Ctx &x) { run(s, x, UNUSUAL); }
} // namespace

pbt::Suite pbt::suite() {
    return {"C24",
            "simulated streams with any noise settings, windows and key-frame thresholds, tracks that miss cameras or are interrupted, images handed over in time or late, without and with resets, against a double-precision estimator written in one piece; the latest and the updated state compared after every message; "
            "non-trivial with more than six images and sixty points used",
            {"all tracks are used in the update (limit not below their number)", "a run ends when a decision (key frame, point in front of a camera, level start) is closer than single precision can tell"},
            {{"runs", runs, 2000, 20000}, {"resets", resets, 900, 9000}, {"unusual", odd, 500, 9000}, {"long", longRuns, 24, 400}}};
}
