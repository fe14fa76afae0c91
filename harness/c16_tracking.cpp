// C16: on any well-observed motion the published position, velocity and attitude track the truth.
#include "sim.hpp"
#include <cstdlib>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
struct Error { double pos = 0, att = 0, vel = 0, upd = 0; };
struct Bound { double pos, att, vel; };

Error track(const sim::Scenario &c, const sim::Stream &st, int least, double &path) {
    std::srand(1);
    Backend b;
    PBT_CHECK(sim::configure(b, c.cfg), "the configuration is not accepted");
    std::vector<V3> e, t, ev, tv, ue, ut;
    std::vector<Q> eq, tq;
    double last = -1, first = -1;
    const double origin = st.order.front().t;
    for (auto &o : st.order) {
        sim::push(b, st, o);
        while (b.RunOnce()) {}
        auto p = sim::latest(b);
        if (b.status == NEED_INIT) {
            PBT_CHECK(first < 0, "tracking was lost at " << o.t - origin << " s, after it started at " << first);
            continue;
        }
        PBT_CHECK(p.ok, "no state is published at " << o.t - origin << " s though tracking runs");
        PBT_CHECK(p.p.allFinite() && p.v.allFinite() && p.q.coeffs().allFinite(), "state at " << p.t << " s is p " << str(p.p) << " v " << str(p.v) << " q " << str(p.q));
        if (first < 0) first = p.t;
        if (o.image) {
            auto u = sim::updated(b);
            PBT_CHECK(u.ok, "no updated state is published at " << o.t - origin << " s though tracking runs");
            ue.push_back(u.p); ut.push_back(c.mot.p(u.t + (origin - c.t0)));
        }
        if (p.t <= last) continue;
        last = p.t;
        const double tt = p.t + (origin - c.t0);
        e.push_back(p.p); ev.push_back(p.v); eq.push_back(p.q);
        t.push_back(c.mot.p(tt)); tv.push_back(c.mot.v(tt)); tq.push_back(c.mot.q(tt));
    }
    PBT_CHECK(first >= 0, "tracking never started, with " << least << " tracks shared by any two images");
    auto al = sim::align(e, t, eq, tq);
    Error r;
    for (std::size_t i = 0; i < e.size(); ++i) {
        r.pos = std::max(r.pos, (al.q() * e[i] + al.t - t[i]).norm());
        r.att = std::max(r.att, angle(al.q() * eq[i], tq[i]));
        r.vel = std::max(r.vel, (al.q() * ev[i] - tv[i]).norm());
        if (i) path += (t[i] - t[i - 1]).norm();
    }
    for (std::size_t i = 0; i < ue.size(); ++i) r.upd = std::max(r.upd, (al.q() * ue[i] + al.t - ut[i]).norm());
    if (const char *fn = getenv("VT_DUMP")) {
        static FILE *f = fopen(fn, "a"); setlinebuf(f);
        fprintf(f, "pos %.5f att %.5f vel %.5f upd %.5f least %d noise %g hz %g every %d shift %g w %d cams %zu max %d per %d\n", r.pos, r.att, r.vel, r.upd, least, c.pixNoise, c.cfg.imuHz, c.imgEvery, c.imgShift, c.cfg.window, c.cfg.ext.size(), c.cfg.maxFeatures, c.perFrame);
    }
    return r;
}
// A single run may meet a landmark that is hardly triangulated, so its bound is wide; of three runs the middle one is not.
void three(pbt::Src &s, pbt::Ctx &x, sim::Kind kind, int between, Bound one, Bound median) {
    std::vector<Error> r;
    double path = 0;
    for (int i = 0; i < 3; ++i) {
        sim::Scenario c = sim::scenario(s, kind, kind == sim::EXACT ? 3 : 4);
        if (between == 0) c.imgShift = 0;
        if (between == 1) c.imgShift = s.real(-0.45, 0.45) * c.period();
        sim::describe(x, c, kind);
        auto st = sim::simulate(c);
        const int least = sim::fewest(st);
        if (least < 14) throw pbt::Discard{};
        r.push_back(track(c, st, least, path));
        const Error &e = r.back();
        PBT_CHECK(e.pos <= one.pos && e.upd <= one.pos && e.att <= one.att && e.vel <= one.vel, "run " << i + 1 << ": after alignment the published states are up to "
                      << e.pos << " m (updated ones " << e.upd << " m), " << e.att << " rad and " << e.vel << " m/s from the truth, allowed are " << one.pos << ", " << one.att << ", " << one.vel);
        x.label("images between measurements", c.imgShift != 0);
        x.label(c.cfg.ext.size() == 2 ? "2 cameras" : "3 cameras");
        x.label("moving from the beginning", c.mot.v0.norm() > 0);
    }
    auto mid = [&](double Error::*m) {
        std::vector<double> v;
        for (auto &e : r) v.push_back(e.*m);
        std::sort(v.begin(), v.end());
        return v[1];
    };
    const double p = mid(&Error::pos), u = mid(&Error::upd), a = mid(&Error::att), v = mid(&Error::vel);
    PBT_CHECK(p <= median.pos && u <= median.pos && a <= median.att && v <= median.vel, "the middle one of three runs is " << p << " m (updated states " << u << " m), " << a << " rad and " << v
                  << " m/s from the truth, allowed are " << median.pos << ", " << median.att << ", " << median.vel);
    x.nontrivial(path > 0.6);
}
// biases that are not those configured are found out when the configured noise lets them move
void learn(pbt::Src &s, pbt::Ctx &x) {
    std::vector<double> bg, ba;
    for (int i = 0; i < 3; ++i) {
        sim::Scenario c = sim::scenario(s, sim::EXACT, 4);
        c.cfg.nwa = s.logReal(1e-2, 1); c.cfg.nwg = s.logReal(1e-2, 1);
        c.perFrame = std::max(c.perFrame, 30); c.cfg.maxFeatures = std::max(c.cfg.maxFeatures, 30);
        // they move after the start, so that it is level
        const V3 da = dir(s) * s.real(0.02, 0.1), dg = dir(s) * s.real(0.005, 0.03);
        const double move = (c.firstImage + 2 * c.imgEvery) * c.period() + s.real(0.1, 0.5);
        sim::describe(x, c, sim::BIAS);
        x.desc << "random walk set to " << c.cfg.nwa << " " << c.cfg.nwg << "; ";
        auto st = sim::simulate(c);
        const int least = sim::fewest(st);
        if (least < 14) throw pbt::Discard{};
        for (auto &m : st.imu) if (m->timeStamp > c.t0 + move) { m->accel += f(da); m->gyro += f(dg); }
        std::srand(1);
        Backend b;
        PBT_CHECK(sim::configure(b, c.cfg), "the configuration is not accepted");
        for (auto &o : st.order) { sim::push(b, st, o); while (b.RunOnce()) {} }
        auto p = sim::latest(b);
        PBT_CHECK(b.status == INITIALIZED && p.ok, "run " << i + 1 << ": not tracking at the end");
        bg.push_back((p.bg - c.bg - dg).norm() / dg.norm());
        ba.push_back((p.ba - c.ba - da).norm() / da.norm());
        if (const char *fn = getenv("VT_DUMP")) { FILE *f = fopen(fn, "a"); fprintf(f, "bg %g ba %g nwa %g nwg %g dg %g da %g\n", bg.back(), ba.back(), c.cfg.nwa, c.cfg.nwg, dg.norm(), da.norm()); fclose(f); }
    }
    std::sort(bg.begin(), bg.end()); std::sort(ba.begin(), ba.end());
    PBT_CHECK(bg[2] < 0.7 && ba[2] < 1 && bg[1] < 0.25 && ba[1] < 0.5, "biases that changed after the start are estimated with errors of " << bg[0] << ", " << bg[1] << ", " << bg[2] << " (gyroscope) and " << ba[0] << ", " << ba[1]
                  << ", " << ba[2] << " (accelerometer) of the change in three runs");
    x.nontrivial();
}
void exact(pbt::Src &s, pbt::Ctx &x) { three(s, x, sim::EXACT, 0, {0.05, 0.015, 0.1}, {0.001, 0.0005, 0.003}); }
void between(pbt::Src &s, pbt::Ctx &x) { three(s, x, sim::EXACT, 1, {0.06, 0.04, 0.15}, {0.03, 0.02, 0.07}); }
void bias(pbt::Src &s, pbt::Ctx &x) { three(s, x, sim::BIAS, 2, {0.3, 0.03, 0.4}, {0.05, 0.015, 0.1}); }
void noise(pbt::Src &s, pbt::Ctx &x) { three(s, x, sim::NOISE, 2, {0.5, 0.05, 0.8}, {0.15, 0.025, 0.4}); }
void both(pbt::Src &s, pbt::Ctx &x) { three(s, x, sim::BIAS_NOISE, 2, {0.5, 0.05, 0.8}, {0.15, 0.025, 0.4}); }
} // namespace

pbt::Suite pbt::suite() {
    return {"C16", "the true paths of the case's three runs add up to more than 0.6 m (every run has at least 14 tracks in common between any two successive images)",
            {"for `learn`: noise-free data, biases that change once after the start, random walks of 0.01 to 1 configured; it is non-trivial always",
             "start without acceleration, two or three cameras, every landmark seen by all of them",
             "accuracy is judged after alignment in yaw and position, the four unobservable directions",
             "bounds are several times the largest errors seen on the unchanged tree; one run in a case may be worse than the middle one"},
            {{"exact", exact, 90, 4000}, {"between", between, 30, 1500}, {"bias", bias, 40, 1500}, {"noise", noise, 25, 1000}, {"both", both, 25, 1000}, {"learn", learn, 30, 1500}}};
}
