// C09: the attitude estimator levels with gravity, follows the gyroscope, and is looked up by time.
// variant: san
// fuzz: 120
// units: propagate
#include "common.hpp"
#include <attitude_estimate.hpp>
#include <imu_state.hpp>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
const V3 UP(0, 0, 1);
double tilt(const Q &q, const V3 &upBody) { return std::atan2((q * upBody).cross(UP).norm(), (q * upBody).dot(UP)); }

// the first measurement aligns the measured specific force with gravity, whatever its direction
void level(pbt::Src &s, pbt::Ctx &x) {
    const double g = s.chance(1, 2) ? 9.8 : s.real(1, 12);
    IMUFullState::SetGravityNorm(float(g));
    AttitudeEstimate e;
    const V3 ba = s.chance(1, 2) ? vec(s, 0.5) : V3(0, 0, 0), bg = s.chance(1, 2) ? vec(s, 0.3) : V3(0, 0, 0);
    if (s.chance(1, 2)) e.SetBias(f(ba), f(bg)); else { e.bias_a = f(ba); e.bias_g = f(bg); }
    V3 up = s.chance(1, 6) ? s.pick<V3>({V3(0, 0, 1), V3(0, 0, -1), V3(1, 0, 0), V3(0, -1, 0)}) : dir(s);
    if (s.chance(1, 8)) up = (up + 1e-4 * dir(s)).normalized();
    const double off = s.pick<double>({0, 0.02, -0.02, 0.035, -0.035, 0.045, -0.045, 0.5, -0.5});
    const V3 a = up * std::max(0.0, g + off) + ba, w = vec(s, 2) + bg;
    const double t = s.real(0, 1e4);
    Q q(1, 0, 0, 0);
    fQ got;
    PBT_CHECK(!e.GetAttitude(t, 1, got), "an attitude before the first measurement");
    const bool ok = e.Propagate(f(a), f(w), t);
    x.desc << "accel " << str(a) << " bias " << str(ba) << " gravity " << g << " -> " << ok;
    PBT_CHECK(ok == (std::fabs(off) < 0.04), "specific force of norm " << g + off << " under gravity " << g << (ok ? " accepted" : " refused") << " as a start");
    if (!ok) {
        PBT_CHECK(e.items.empty() && !e.GetAttitude(t, 1, got), "a refused start leaves an attitude");
    } else {
        PBT_CHECK(e.items.size() == 1 && e.items.front()->timeStamp == t, "the start is not recorded");
        PBT_CHECK(e.GetAttitude(t, 0.001, got), "the attitude of the start is not found");
        q = d(got);
        PBT_CHECK(std::fabs(q.norm() - 1) < 1e-5, "attitude " << str(q) << " is not a unit quaternion");
        PBT_CHECK(tilt(q, up) < 2e-3, "attitude " << str(q) << " is tilted by " << tilt(q, up) << " rad against the measured gravity direction " << str(up));
        auto &it = *e.items.front();
        PBT_CHECK((d(it.accel) - a).norm() < 1e-5 && (d(it.gyro) - w).norm() < 1e-5, "the recorded item does not hold the measurement");
    }
    x.label("accepted", ok);
    x.label("tilted by more than 45 degrees", ok && up.z() < 0.7);
    x.nontrivial(ok && up.z() < 0.95);
}

// a body that only turns: the attitude follows the gyroscope
void turning(pbt::Src &s, pbt::Ctx &x) {
    const double g = 9.8;
    IMUFullState::SetGravityNorm(float(g));
    AttitudeEstimate e;
    const V3 ba = vec(s, 0.3), bg = vec(s, 0.2);
    e.SetBias(f(ba), f(bg));
    Q q = rot(s);
    const int n = s.range(2, 200);
    const double dt = s.logReal(0.001, 0.02), wMax = s.pick<double>({0.1, 1, 3});
    V3 w0 = vec(s, wMax), w1 = vec(s, wMax), ph = vec(s, 3), fr = vecIn(s, 0, 2);
    Q first(1, 0, 0, 0);
    double t = s.real(0, 100), turned = 0, bound = 2e-3;
    V3 wPrev(0, 0, 0);
    x.desc << n << " steps of " << dt << " s, rates " << str(w0) << " + " << str(w1) << " sin; ";
    bool dropouts = s.chance(1, 3);
    for (int i = 0; i < n; ++i) {
        V3 w;
        for (int k = 0; k < 3; ++k) w[k] = w0[k] + w1[k] * std::sin(fr[k] * i * dt + ph[k]);
        if (i) { V3 m = 0.5 * (w + wPrev); Q dq = expq(m * dt); q = (q * dq).normalized(); turned += m.norm() * dt; bound += std::pow(m.norm() * dt, 3) / 6 + 1e-6; t += dt; }
        wPrev = w;
        V3 a = q.conjugate() * V3(0, 0, g) + ba;
        const bool drop = dropouts && i && s.chance(1, 30);    // a measurement without any specific force carries no direction
        PBT_CHECK(e.Propagate(f(drop ? V3(0, 0, 0) : a), f(w + bg), t), "a measurement is refused");
        if (drop) { x.label("zero specific force"); bound += 2e-3 * dt; }
        Q est = d(e.items.back()->q_wb);
        PBT_CHECK(std::fabs(est.norm() - 1) < 1e-5, "attitude " << str(est) << " after step " << i);
        if (!i) first = (est * q.conjugate()).normalized();      // the heading is free: carry it along
        // the correction towards the measured gravity may move the attitude by its gains
        bound += (1e-3 * 0.06 + 1e-4 * n * 0.06) * dt;
        const double err = angle(est, (first * q).normalized());
        PBT_CHECK(err < bound, "after step " << i << " (" << turned << " rad turned) the attitude is " << err << " rad away from the gyroscope");
    }
    x.nontrivial(turned > 0.05);
}

// a body at rest whose estimate is tilted: the tilt shrinks
void settles(pbt::Src &s, pbt::Ctx &x) {
    const double g = s.pick<double>({9.8, 9.8, 3.7});
    IMUFullState::SetGravityNorm(float(g));
    AttitudeEstimate e;
    const V3 bg = vec(s, 0.1), ba = s.chance(1, 3) ? V3(V3::Zero()) : vec(s, 0.3);
    e.SetBias(f(ba), f(bg));
    const V3 wrong = dir(s);
    V3 axis = wrong.cross(dir(s));
    if (axis.norm() < 1e-3) throw pbt::Discard{};
    const double ang = s.chance(1, 3) ? 0 : s.real(0.05, 1.2);
    const V3 up = expq(axis.normalized() * ang) * wrong;
    const double dt = s.pick<double>({0.005, 0.01, 0.0025}), T = s.real(1.5, 4);
    double t = 0;
    e.Propagate(f(wrong * g + ba), f(bg), t);
    const double before = tilt(d(e.items.back()->q_wb), up);
    const int n = int(T / dt);
    double worst = 0;
    for (int i = 0; i < n; ++i) {
        e.Propagate(f(up * g + ba), f(bg), t += dt);
        worst = std::max(worst, tilt(d(e.items.back()->q_wb), up));
    }
    const double after = tilt(d(e.items.back()->q_wb), up);
    x.desc << "bias " << str(ba) << ", gravity " << g << ", tilt " << before << " -> " << after << " in " << T << " s";
    PBT_CHECK(std::fabs(before - ang) < 0.01, "the estimate starts with a tilt of " << before << " instead of " << ang);
    if (ang == 0) PBT_CHECK(worst < 2e-3, "at rest, with its bias known, the levelled estimate tilts by " << worst);
    else PBT_CHECK(after < before && worst < before + 2e-3, "at rest the tilt of the estimate grows from " << before << " to " << after << " (at most " << worst << ")");
    x.label("levelled", ang == 0);
    x.nontrivial(ang > 0 || ba.norm() > 0.05);
}

// the whole filter: mean rate plus proportional and integral feedback of the tilt, through cleaning and new starts of the list
void feedback(pbt::Src &s, pbt::Ctx &x) {
    const double g = s.pick<double>({9.8, 9.8, 3.7});
    IMUFullState::SetGravityNorm(float(g));
    AttitudeEstimate e;
    if (s.chance(2, 3)) { e.Kp = float(s.logReal(1e-3, 1)); e.Ki = float(s.logReal(1e-5, 1e-2)); }
    const double Kp = e.Kp, Ki = e.Ki;
    V3 ba = d(f(vec(s, 0.3))), bg = d(f(vec(s, 0.1)));
    e.SetBias(f(ba), f(bg));
    V3 up = dir(s), sum(0, 0, 0), w0(0, 0, 0);
    const V3 rate = s.chance(1, 3) ? V3(V3::Zero()) : vec(s, 1);
    const double dt = s.pick<double>({0.005, 0.01, 0.0025}), push = s.pick<double>({0, 0.1, 3});
    const int n = s.range(2, s.chance(1, 10) ? 1500 : 150);
    double t = s.real(0, 100), tiltMax = 0;
    Q q(1, 0, 0, 0);
    bool fresh = true;
    int starts = 0;
    double bound = 0;
    x.desc << n << " steps of " << dt << " s, gains " << Kp << " " << Ki << ", gravity " << g << "; ";
    const V3 other = expq(dir(s) * s.real(0, 1.2)) * up;
    for (int i = 0; i < n; ++i, t += dt) {
        const V3 w = d(f(V3(bg + rate * std::sin(0.01 * i) + V3(0.02, -0.01, 0.01))));
        const V3 a = d(f(V3((fresh ? up * g : V3(other * g + push * V3(std::sin(0.1 * i), std::cos(0.13 * i), std::sin(0.07 * i)))) + ba)));
        PBT_CHECK(e.Propagate(f(a), f(w), t), "the measurement " << i << " is refused");
        Q est = d(e.items.back()->q_wb);
        if (fresh) {
            PBT_CHECK(tilt(est, up) < 2e-3, "levelled with a tilt of " << tilt(est, up));
            q = est.normalized();
            fresh = false;
            bound = 2e-5;
            ++starts;
        } else {
            const V3 err = (a - ba).normalized().cross(q.conjugate() * UP);
            tiltMax = std::max(tiltMax, err.norm());
            sum += Ki * err;
            const V3 wm = 0.5 * (w0 + w) - bg + Kp * err + sum;
            const Q before = q;
            q = (q * expq(wm * dt)).normalized();
            bound += std::pow(wm.norm() * dt, 3) / 6 + 1e-6 + 2e-6 * Ki * i * dt;
            PBT_CHECK(angle(est, q) < bound, "after step " << i << " the attitude is " << angle(est, q) << " rad away from gyroscope and feedback (from q " << str(before) << ", rate " << str(wm) << ")");
        }
        w0 = w;
        if (s.chance(1, 100)) {
            if (s.chance(1, 2)) e.CleanOldItems(t, float(dt * 2.5));
            else { e.CleanOldItems(t + 10, float(dt)); PBT_CHECK(e.items.empty(), "items remain"); fresh = true; up = dir(s); }
        }
    }
    x.label("list emptied and started again", starts > 1);
    x.label("tilt above half a radian", tiltMax > 0.5);
    x.nontrivial(tiltMax > 0.05 && n > 10);
}

// look-up by time and forgetting
void lookup(pbt::Src &s, pbt::Ctx &x) {
    IMUFullState::SetGravityNorm(9.8f);
    AttitudeEstimate e;
    struct It { double t; Q q; };
    std::deque<It> model;
    const double dt = s.pick<double>({0.005, 0.01, 0.1});
    double t = s.pick<double>({0, 5, 1000});
    const int ops = s.range(1, 40);
    int found = 0, missed = 0, cleaned = 0, emptied = 0;
    for (int k = 0; k < ops; ++k) {
        int op = s.range(0, 9);
        if (op < 5) {
            double tn = t + (s.chance(1, 8) ? -dt * s.real(0, 2) : dt * s.pick<double>({1, 1, 1.05, 0.5, 5}));
            V3 a = 9.8 * dir(s);
            bool want = model.empty() || model.back().t <= tn;
            bool ok = e.Propagate(f(a), f(vec(s, 1)), tn);
            PBT_CHECK(ok == want, "a measurement at " << tn << (ok ? " accepted" : " refused") << ", the newest is at " << (model.empty() ? NAN : model.back().t));
            if (ok) { model.push_back({tn, d(e.items.back()->q_wb)}); t = tn; x.desc << "@" << tn << "; "; }
        } else if (op < 9) {
            double q = model.empty() ? t : (s.chance(1, 3) ? model.front().t : s.chance(1, 2) ? model.back().t : model[s.choice(model.size() - 1)].t) + dt * s.pick<double>({0, 0.1, 0.4, 0.45, 0.7, 3, -0.1, -0.4, -0.7, -3});
            double thr = dt * s.pick<double>({0.55, 0.2, 1, 10});
            fQ got(0.5f, 0.5f, 0.5f, 0.5f);
            bool ok = e.GetAttitude(q, thr, got);
            double best = INFINITY;
            for (auto &m : model) best = std::min(best, std::fabs(m.t - q));
            x.desc << "at " << q << " within " << thr << ": " << ok << "; ";
            if (std::fabs(best - thr) < 1e-9 * (1 + std::fabs(q)) + 1e-12) continue;
            PBT_CHECK(ok == (best < thr), "looking for an attitude at " << q << " within " << thr << (ok ? " succeeds" : " fails") << " although the nearest of " << model.size() << " items is " << best << " away");
            if (!ok) { ++missed; continue; }
            ++found;
            bool match = false;
            for (auto &m : model) match = match || (std::fabs(std::fabs(m.t - q) - best) < 1e-9 && (m.q.coeffs() - d(got).coeffs()).norm() < 1e-6);
            PBT_CHECK(match, "the attitude found at " << q << " is not that of the nearest item");
        } else {
            double q = model.empty() ? t : model[s.choice(model.size() - 1)].t + dt * s.pick<double>({0, 0.3, 0.9, 5, 50});
            float thr = float(dt * s.pick<double>({1, 0.55}));
            bool unclear = false;
            for (auto &m : model) unclear = unclear || std::fabs(q - m.t - double(thr)) < 1e-6;
            if (unclear) continue;
            while (!model.empty() && q - model.front().t > double(thr)) { model.pop_front(); }
            x.desc << "clean before " << q << " - " << thr << "; ";
            e.CleanOldItems(q, thr);
            ++cleaned;
            if (model.empty()) ++emptied;
        }
        PBT_CHECK(e.items.size() == model.size(), "the estimator holds " << e.items.size() << " items, expected " << model.size());
        for (std::size_t i = 0; i < model.size(); ++i)
            PBT_CHECK(e.items[i]->timeStamp == model[i].t && (d(e.items[i]->q_wb).coeffs() - model[i].q.coeffs()).norm() < 1e-6, "item " << i << " changed");
    }
    x.label("found", found > 0);
    x.label("missed", missed > 0);
    x.label("emptied by cleaning", emptied > 0);
    x.nontrivial(found > 0 && missed > 0);
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C09",
            "level: first measurements of any direction, norm and bias, non-trivial when accepted and tilted; turning: body turning in place, non-trivial above 0.05 rad; settles: tilted estimate at rest; feedback: any measurements and gains against the filter in double precision, non-trivial with a tilt above 0.05; "
            "lookup: histories of measurements, look-ups and cleaning against a model, non-trivial with hits and misses",
            {"gravity is not zero", "the heading of the start is free", "norm deviations between 0.035 and 0.045 m/s^2 are not generated"},
            {{"level", level, 400000, 4000000}, {"turning", turning, 40000, 400000}, {"settles", settles, 15000, 150000}, {"feedback", feedback, 20000, 400000}, {"lookup", lookup, 300000, 3000000}}};
}
