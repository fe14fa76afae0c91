// C19: after a reset or a disturbance good messages are enough to start again, and to track as well as before.
#include "whole.hpp"
#include <cstdlib>
#include <set>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
enum What { RESET, NO_IMU, NO_IMAGES, EMPTY, NEW_TRACKS, RESETS, KINDS };
const char *names[] = {"reset", "no measurements", "no images", "empty images", "new tracks", "several resets"};

struct Disturbance { What what; double from, to; };

struct Error { double pos = 0, att = 0, vel = 0; int restarts = 0; };

Error recover(pbt::Src &s, pbt::Ctx &x) {
    sim::Scenario c = sim::scenario(s, sim::EXACT, 0);
    c.imgShift = 0;
    c.perFrame = s.pick<int>({60, 90}); c.landmarks = 900; c.cfg.maxFeatures = s.pick<int>({30, 60, 15});
    const double dt = c.period(), img = c.imgEvery * dt;
    const int n = s.range(1, 2);
    std::vector<Disturbance> ds;
    double t = c.mot.still + c.mot.ramp + s.real(0.3, 0.8);
    for (int i = 0; i < n; ++i) {
        t += 0.5;
        Disturbance k{What(s.range(0, KINDS - 1)), t + 0.05 + s.real(0, 0.1), 0};
        k.to = k.from + s.real(1.2 * img, 0.5);
        ds.push_back(k);
        const double rest = k.to - t + 5.5 * img;
        c.mot.pauses.push_back({t, rest});
        t += rest + s.real(1.2, 1.6);
    }
    c.duration = t;
    // measurements missing while the rig turns are not made up for
    for (auto &k : ds) if (k.what == NO_IMU) c.mot.yawRate = 0;
    sim::describe(x, c, sim::EXACT);
    for (auto &k : ds) x.desc << names[k.what] << " from " << k.from << " to " << k.to << "; ";
    auto st = sim::simulate(c);
    if (sim::fewest(st) < 14) throw pbt::Discard{};
    // apply them
    auto in = [&](double tt, What w) { for (auto &k : ds) if (k.what == w && tt - c.t0 >= k.from - 1e-9 && tt - c.t0 <= k.to + 1e-9) return true; return false; };
    st.imu.erase(std::remove_if(st.imu.begin(), st.imu.end(), [&](auto &m) { return in(m->timeStamp, NO_IMU); }), st.imu.end());
    st.img.erase(std::remove_if(st.img.begin(), st.img.end(), [&](auto &m) { return in(m->timeStamp, NO_IMAGES); }), st.img.end());
    std::uint32_t shift = 0;
    for (auto &m : st.img) {
        if (in(m->timeStamp, EMPTY)) { m->ids.clear(); m->observes.clear(); m->flag.clear(); }
        if (in(m->timeStamp, NEW_TRACKS)) shift += 10000;
        for (auto &i : m->ids) i += shift;
    }
    st.sortEvents();
    std::srand(1);
    Backend b;
    PBT_CHECK(sim::configure(b, c.cfg), "the configuration is not accepted");
    const double origin = st.order.front().t;
    std::vector<V3> e, tr, ev, tv;
    std::vector<Q> eq, tq;
    double pos = 0, att = 0, vel = 0, last = -1;
    int segments = 0, restarts = 0;
    auto finish = [&] {
        if (e.size() > 3) {
            auto al = sim::align(e, tr, eq, tq);
            for (std::size_t i = 0; i < e.size(); ++i) {
                pos = std::max(pos, (al.q() * e[i] + al.t - tr[i]).norm());
                att = std::max(att, angle(al.q() * eq[i], tq[i]));
                vel = std::max(vel, (al.q() * ev[i] - tv[i]).norm());
            }
            ++segments;
        }
        e.clear(); tr.clear(); ev.clear(); tv.clear(); eq.clear(); tq.clear();
    };
    std::size_t next = 0;                                              // disturbance
    std::vector<double> resets;
    for (auto &k : ds) {
        if (k.what == RESET) resets.push_back(k.from);
        if (k.what == RESETS) for (int i = 0; i < 3; ++i) resets.push_back(k.from + (k.to - k.from) * i / 2);
    }
    std::size_t r = 0;
    int good = 0;
    bool was = false;
    for (auto &o : st.order) {
        const double tt = o.t - c.t0;
        while (r < resets.size() && tt > resets[r]) { b.Reset(); ++r; was = false; PBT_CHECK(b.status == NEED_INIT, "Reset leaves the status " << int(b.status)); finish(); good = 0; }
        sim::push(b, st, o);
        for (int i = 0; i < 2; ++i) b.RunOnce();
        const bool disturbed = next < ds.size() && tt >= ds[next].from - 1e-9;
        if (disturbed && tt > ds[next].to + 1e-9) { ++next; good = 0; }
        const bool on = b.status == INITIALIZED;
        if (o.image) ++good;
        if (was && !on) { PBT_CHECK(disturbed || (o.image && good <= 2), "tracking was lost at " << tt << " s, undisturbed"); finish(); }
        if (!was && on) { ++restarts; finish(); }
        was = on;
        // two images for the failure to show, then two to start from
        if (o.image && good >= 4 && !disturbed) PBT_CHECK(on, "no tracking at " << tt << " s, " << good << " good images after " << (next ? names[ds[next - 1].what] : "the start"));
        if (!on) continue;
        auto p = sim::latest(b);
        PBT_CHECK(p.ok, "no state is published at " << tt << " s though tracking runs");
        PBT_CHECK(p.p.allFinite() && p.v.allFinite() && p.q.coeffs().allFinite(), "state at " << p.t << " s is p " << str(p.p) << " v " << str(p.v) << " q " << str(p.q));
        if (p.t <= last) continue;
        last = p.t;
        const double at = p.t + origin - c.t0;
        e.push_back(p.p); ev.push_back(p.v); eq.push_back(p.q);
        tr.push_back(c.mot.p(at)); tv.push_back(c.mot.v(at)); tq.push_back(c.mot.q(at));
    }
    finish();
    if (const char *fn = getenv("VT_DUMP")) {
        static FILE *f = fopen(fn, "a"); setlinebuf(f);
        fprintf(f, "pos %.5f att %.5f vel %.5f restarts %d seg %d hz %g", pos, att, vel, restarts, segments, c.cfg.imuHz);
        for (auto &k : ds) fprintf(f, " %s", names[k.what]);
        fprintf(f, "\n");
    }
    for (auto &k : ds) x.label(names[k.what]);
    x.label("restarted", restarts > 1);
    return {pos, att, vel, restarts};
}
// A single run may meet a landmark that is hardly triangulated, so its bound is wide; of three runs the middle one is not.
void recovery(pbt::Src &s, pbt::Ctx &x) {
    std::vector<Error> r;
    int restarted = 0;
    for (int i = 0; i < 3; ++i) {
        r.push_back(recover(s, x));
        auto &e = r.back();
        PBT_CHECK(e.pos < 0.4 && e.att < 0.12 && e.vel < 0.6, "run " << i + 1 << ": between disturbances the states are up to " << e.pos << " m, " << e.att << " rad and " << e.vel << " m/s from the truth");
        restarted += e.restarts > 1;
    }
    auto mid = [&](double Error::*m) {
        std::vector<double> v;
        for (auto &e : r) v.push_back(e.*m);
        std::sort(v.begin(), v.end());
        return v[1];
    };
    const double p = mid(&Error::pos), a = mid(&Error::att), v = mid(&Error::vel);
    PBT_CHECK(p < 0.08 && a < 0.03 && v < 0.18, "the middle one of three runs is " << p << " m, " << a << " rad and " << v << " m/s from the truth between disturbances");
    x.nontrivial(restarted > 1);
}
// After any disturbance, the rig moving or not, the states are those of an estimator that keeps nothing from before.
void reference(pbt::Src &s, pbt::Ctx &x) {
    const sim::Kind k = s.pick<sim::Kind>({sim::EXACT, sim::BIAS_NOISE, sim::BIAS, sim::NOISE});
    sim::Scenario c = sim::scenario(s, k, s.real(1.5, 3));
    c.perFrame = s.pick<int>({20, 30, 14}); c.landmarks = 900;
    c.cfg.maxFeatures = 200;
    c.cfg.window = s.range(2, 8);
    c.cfg.nwa = s.logReal(1e-4, 1e-1); c.cfg.nwg = s.logReal(1e-5, 1e-2); // biases that move: what a restart keeps of them is seen
    if (c.imgShift) c.imgShift = s.real(-0.4, 0.4) * c.period();
    if (c.firstImage == 0 && c.imgShift < 0) c.imgShift = -c.imgShift;
    sim::describe(x, c, k);
    auto st = sim::simulate(c);
    if (sim::fewest(st) < 12) throw pbt::Discard{};
    const double img = c.imgEvery * c.period();
    std::set<int> kinds;
    std::vector<double> resets;
    for (int n = s.range(1, 3); n > 0; --n) {
        const What w = What(s.range(0, KINDS - 1));
        const double from = c.t0 + s.real(0.2 * c.duration, c.duration), to = from + s.real(0.3 * img, w == NO_IMU ? 2 * img : 5 * img);
        auto in = [&](double t) { return t >= from && t <= to; };
        x.desc << names[w] << " from " << from - c.t0 << " to " << to - c.t0 << "; ";
        kinds.insert(w);
        if (w == RESET) resets.push_back(from);
        if (w == RESETS) for (int i = 0; i < 3; ++i) resets.push_back(from + (to - from) * i / 2);
        if (w == NO_IMU) st.imu.erase(std::remove_if(st.imu.begin(), st.imu.end(), [&](auto &m) { return in(m->timeStamp); }), st.imu.end());
        if (w == NO_IMAGES) st.img.erase(std::remove_if(st.img.begin(), st.img.end(), [&](auto &m) { return in(m->timeStamp); }), st.img.end());
        std::uint32_t shift = 0;
        for (auto &m : st.img) {
            if (w == EMPTY && in(m->timeStamp)) { m->ids.clear(); m->observes.clear(); m->flag.clear(); }
            if (w == NEW_TRACKS && in(m->timeStamp)) shift += 10000;
            for (auto &i : m->ids) i += shift;
        }
    }
    st.sortEvents();
    std::srand(1);
    Backend b;
    PBT_CHECK(sim::configure(b, c.cfg), "the configuration is not accepted");
    whole::Estimator ref(c.cfg);
    const double origin = st.order.front().t;
    int images = 0, first = 0;
    std::sort(resets.begin(), resets.end());
    std::size_t r = 0;
    for (auto &o : st.order) {
        for (; r < resets.size() && o.t > resets[r]; ++r) { b.Reset(); ref.reset(); }
        whole::push(ref, st, o, origin);
        if (ref.doubt < 1) break;                                     // a decision that single precision may take otherwise
        sim::push(b, st, o);
        b.RunOnce();
        const std::string bad = whole::differs(ref, b);
        PBT_CHECK(bad.empty(), "at " << o.t - origin << " s (" << ref.starts << " starts before) " << bad);
        images += ref.starts > 1 && ref.tracking && o.image;
        first = std::max(first, ref.starts);
    }
    for (int w : kinds) x.label(std::string("any motion: ") + names[w]);
    x.label("any motion: restarted", first > 1);
    x.nontrivial(images > 3);
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C19",
            "simulated flights that pause, with one or two disturbances (resets, missing measurements or images, images without features, all tracks new) during the pauses; three runs a case, non-trivial when tracking had to start again in two of them; "
            "for the sub-property `reference` disturbances at any time of any motion, compared message by message with a reference estimator that keeps nothing from before, non-trivial when more than three images were compared after a new start",
            {"the rig does not accelerate while it starts again, and does not turn while measurements are missing (not needed for the comparison with the reference)"},
            {{"recovery", recovery, 70, 3000}, {"reference", reference, 800, 12000}}};
}
