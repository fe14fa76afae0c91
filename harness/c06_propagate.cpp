// C06: the propagated position, velocity and attitude follow rigid-body kinematics for any measurement sequence.
// units: data_manager propagate
#include "imuref.hpp"
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
const double EPS = 1.2e-7;

void kinematics(pbt::Src &s, pbt::Ctx &x) {
    const int n = s.range(2, s.chance(1, 20) ? 400 : 40);
    Queue z(s.range(0, 3));
    PropagateQueue &pq = z.q;
    const V3 g0 = s.chance(1, 3) ? V3(0, 0, s.real(0, 12)) : V3(0, 0, 9.8);
    IMUFullState::SetGravityNorm(float(g0.z()));
    const V3 g = d(IMUFullState::gravity_w);
    PBT_CHECK((g - g0).norm() < 1e-5, "gravity is " << str(g) << " after setting its norm to " << g0.z());
    pq.InitializeProcessNoiseMatrix(float(s.real(0, 0.1)), float(s.real(0, 0.1)), float(s.real(0, 0.01)), float(s.real(0, 0.01)));
    const V3 ba = s.chance(2, 3) ? d(f(vec(s, 0.5))) : V3(0, 0, 0), bg = s.chance(2, 3) ? d(f(vec(s, 0.3))) : V3(0, 0, 0);
    pq.bias_a = f(ba); pq.bias_g = f(bg);
    Nav st{vec(s, 100), vec(s, 10), rot(s)};
    pq.initState = IMUMotionState(f(st.p), f(st.v), f(st.q));
    st = nav(pq.initState);
    auto run = imuRun(s, n, s.chance(1, 10) ? 0.1 : 0.02);
    x.desc << "start p " << str(st.p) << " v " << str(st.v) << " q " << str(st.q) << " ba " << str(ba) << " bg " << str(bg) << " g " << g.z() << "; ";
    Nav truth = st, prevReal = st;
    double eq = 2 * EPS, ev = 0, ep = 0, turned = 0, moved = 0;
    for (int i = 0; i < n; ++i) {
        x.desc << str(run[i]) << "; ";
        PBT_CHECK(pq.Propagate(f(run[i].a), f(run[i].w), run[i].t), "Propagate refuses a measurement");
        PBT_CHECK(int(pq.items.size()) == i + 1, "the queue holds " << pq.items.size() << " items after " << i + 1 << " measurements");
        auto &it = *pq.items.back();
        PBT_CHECK(it.timeStamp == run[i].t && (d(it.gyro) - run[i].w).norm() <= EPS * run[i].w.norm() && (d(it.accel) - run[i].a).norm() <= EPS * run[i].a.norm(),
                  "the queue does not keep the measurement");
        Nav r = nav(it.nominalState);
        if (i == 0) {
            PBT_CHECK(r.p == st.p && r.v == st.v && r.q.coeffs() == st.q.coeffs(), "the first item is not the initial state");
        } else {
            const Imu &m0 = run[i - 1], &m1 = run[i];
            const double dt = m1.t - m0.t;
            truth = integrate(truth, m0, m1, ba, bg, g);
            // error bound of the mid-point scheme and of single precision, accumulated
            const V3 w0 = m0.w - bg, w1 = m1.w - bg, a0 = m0.a - ba, a1 = m1.a - ba;
            const double W = std::max(w0.norm(), w1.norm()), A = std::max(a0.norm(), a1.norm()), dw = (w1 - w0).norm() / dt, da = (a1 - a0).norm() / dt, th = W * dt;
            const double v = std::max(truth.v.norm(), prevReal.v.norm()), dtErr = EPS * dt;
            const double ev0 = ev;
            eq += w0.cross(w1).norm() * dt * dt / 8 + th * th * th / 10 + 3 * EPS + W * dtErr + EPS * W * dt;
            ev += eq * A * dt + dt * dt * dt / 10 * (W * W * A + 2 * W * da + dw * A) + 2 * EPS * (truth.v.norm() + (A + g.norm()) * dt) + (A + g.norm()) * dtErr + 4 * EPS * A * dt;
            ep += 0.5 * (ev0 + ev) * dt + dt * dt * dt / 8 * (W * A + da) + 2 * EPS * (truth.p.norm() + v * dt) + v * dtErr;
            turned = std::max(turned, angle(st.q, truth.q));
            moved = std::max(moved, (truth.p - st.p).norm());
        }
        PBT_CHECK(std::fabs(r.q.norm() - 1) < 1e-5, "attitude of norm " << r.q.norm());
        const double dq = angle(r.q, truth.q), dv = (r.v - truth.v).norm(), dp = (r.p - truth.p).norm();
        PBT_CHECK(dq <= 1.5 * eq + 1e-6, "after " << i << " steps the attitude is " << dq << " rad away from the kinematics, the scheme explains " << eq);
        PBT_CHECK(dv <= 1.5 * ev + 1e-6, "after " << i << " steps the velocity " << str(r.v) << " is " << dv << " m/s away from the kinematics, the scheme explains " << ev);
        PBT_CHECK(dp <= 1.5 * ep + 1e-6, "after " << i << " steps the position " << str(r.p) << " is " << dp << " m away from the kinematics, the scheme explains " << ep);
        PBT_CHECK(d(pq.bias_a) == ba && d(pq.bias_g) == bg, "propagation changed the bias");
        prevReal = r;
    }
    for (int i = 0; i < n; ++i) PBT_CHECK(pq.items[i]->timeStamp == run[i].t, "propagation changed an earlier item");
    x.label("turning", turned > 0.1);
    x.label("long", n > 60);
    x.label("bias", ba.norm() > 0 && bg.norm() > 0);
    x.nontrivial(turned > 1e-3 && moved > 1e-3);
}

// moving and turning the world (about gravity) moves and turns the result
void frameInvariance(pbt::Src &s, pbt::Ctx &x) {
    const int n = s.range(2, 30);
    IMUFullState::SetGravityNorm(9.8f);
    auto run = imuRun(s, n);
    const V3 ba = vec(s, 0.3), bg = vec(s, 0.2);
    Nav st{vec(s, 10), vec(s, 5), rot(s)};
    const double yaw = s.real(-M_PI, M_PI), shift = s.pick<double>({0, 1, 1000});
    const V3 t = vec(s, 50), dv = vec(s, 5);
    const Q r = expq(V3(0, 0, yaw));
    Queue a, b;
    a.q.bias_a = b.q.bias_a = f(ba); a.q.bias_g = b.q.bias_g = f(bg);
    a.q.initState = IMUMotionState(f(st.p), f(st.v), f(st.q));
    b.q.initState = IMUMotionState(f(r * st.p + t), f(r * st.v + dv), f(r * st.q));
    x.desc << "yaw " << yaw << " shift " << str(t) << " boost " << str(dv);
    double T = 0, acc = 0;
    for (auto &m : run) {
        a.q.Propagate(f(m.a), f(m.w), m.t);
        b.q.Propagate(f(m.a), f(m.w), m.t + shift);
        T = m.t - run[0].t;
        acc = std::max(acc, m.a.norm() + 10);
        Nav na = nav(a.q.items.back()->nominalState), nb = nav(b.q.items.back()->nominalState);
        const double k = 2e-6 * n;                             // rounding, a few ulp a step
        PBT_CHECK(angle(r * na.q, nb.q) < k + 1e-6, "attitude is not carried along by a turn of the world: " << angle(r * na.q, nb.q));
        PBT_CHECK((r * na.v + dv - nb.v).norm() < k * (acc * T + 20) + 1e-5, "velocity is not carried along by a turn of the world and a boost: " << str(r * na.v + dv) << " vs " << str(nb.v));
        PBT_CHECK((r * na.p + t + dv * T - nb.p).norm() < k * (acc * T * T + 20 * T + 100) + 1e-4, "position is not carried along: " << str(r * na.p + t + dv * T) << " vs " << str(nb.p));
    }
    x.nontrivial(std::fabs(yaw) > 0.1 && dv.norm() > 0.1);
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C06",
            "kinematics: random measurement sequences (any rate, specific force, bias, gravity, attitude, irregular spacing) against a fine integration in double precision within the "
            "error bound of the mid-point scheme, non-trivial when the body turns and moves; frameInvariance: the same sequence in a turned, shifted, boosted world",
            {"finite measurements with increasing time stamps at most 0.2 s apart"},
            {{"kinematics", kinematics, 150000, 3000000}, {"frameInvariance", frameInvariance, 60000, 1000000}}};
}
