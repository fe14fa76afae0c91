// C07: the error-state covariance is propagated by the derivative of the motion model and the configured noise.
// units: data_manager propagate
#include "imuref.hpp"
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
// a covariance over any subset of directions, from nothing to strongly correlated
MX randomCov(pbt::Src &s, int n, const std::vector<double> &scale) {
    MX L = MX::Zero(n, n);
    const int rank = s.range(0, n);
    for (int j = 0; j < rank; ++j) for (int i = 0; i < n; ++i) L(i, j) = s.real(-1, 1) * scale[i];
    return L * L.transpose();
}
std::vector<double> scales(pbt::Src &s, int n) {
    std::vector<double> r(n);
    const double k = s.pick<double>({1, 1, 0.01});
    for (int i = 0; i < n; ++i) r[i] = k * (i < 3 ? 0.3 : i < 6 ? 0.2 : i < 9 ? 0.05 : i < 12 ? 0.05 : i < 15 ? 0.01 : 0.1);
    return r;
}

struct Setup {
    Queue z;
    V3 ba, bg, g;
    double q[4];
    MX Q;
    int n;                       // external states
    explicit Setup(pbt::Src &s) : z(s.range(0, 2)) {
        IMUFullState::SetGravityNorm(9.8f);
        g = d(IMUFullState::gravity_w);
        for (double &v : q) v = double(float(s.chance(1, 5) ? 0 : s.logReal(1e-6, 0.3)));
        z.q.InitializeProcessNoiseMatrix(float(q[0]), float(q[1]), float(q[2]), float(q[3]));
        Q = MX::Zero(12, 12);
        for (int i = 0; i < 12; ++i) Q(i, i) = q[i / 3];
        ba = d(f(vec(s, 0.5))); bg = d(f(vec(s, 0.3)));
        z.q.bias_a = f(ba); z.q.bias_g = f(bg);
        z.q.initState = IMUMotionState(f(vec(s, 10)), f(vec(s, 3)), f(rot(s)));
        n = int(z.wm.extrinsics.size()) * 6 + 6;
    }
    // installs a covariance over inertial and external states, as an update leaves it
    MX install(pbt::Src &s, int external) {
        n = external;
        MX P = randomCov(s, 15 + n, scales(s, 15 + n)).cast<float>().cast<double>();
        auto &it = *z.q.items.front();
        it.imuCov = P.topLeftCorner(15, 15).cast<float>();
        it.imuExCamCov = P.topRightCorner(15, n).cast<float>();
        z.q.exCamCov = P.bottomRightCorner(n, n).cast<float>();
        return P;
    }
    MX full(std::size_t i) const {
        MX P(15 + n, 15 + n);
        auto &it = *z.q.items[i];
        P << it.imuCov.cast<double>(), it.imuExCamCov.cast<double>(), it.imuExCamCov.cast<double>().transpose(), z.q.exCamCov.cast<double>();
        return P;
    }
};

// step by step against the documented linearisation
void linearised(pbt::Src &s, pbt::Ctx &x) {
    Setup u(s);
    const int n = s.range(2, 12);
    auto run = imuRun(s, n);
    PropagateQueue &pq = u.z.q;
    pq.Propagate(f(run[0].a), f(run[0].w), run[0].t);
    {
        auto &it = *pq.items.front();
        PBT_CHECK(it.imuCov == (Eigen::Matrix<float, 15, 15>::Zero()), "a fresh start has a covariance");
        PBT_CHECK(it.imuExCamCov.cols() == u.n && it.imuExCamCov.isZero(0) && pq.exCamCov.rows() == u.n && pq.exCamCov.cols() == u.n && pq.exCamCov.isZero(0),
                  "a fresh start has external covariance of size " << pq.exCamCov.rows() << ", expected " << u.n << " zeros");
    }
    MX P = MX::Zero(15 + u.n, 15 + u.n);
    if (s.chance(3, 4)) P = u.install(s, s.range(0, 6) * 3);
    const Matrix ex0 = pq.exCamCov;
    x.desc << n << " steps, noise " << u.q[0] << " " << u.q[1] << " " << u.q[2] << " " << u.q[3] << ", start " << str(run[0]) << ", |P| " << P.norm();
    double grown = 0;
    for (int i = 1; i < n; ++i) {
        pq.Propagate(f(run[i].a), f(run[i].w), run[i].t);
        const Nav st = nav(pq.items[i - 1]->nominalState);
        V3 ma, mw;
        midpoint(st, run[i - 1], run[i], u.ba, u.bg, u.g, &ma, &mw);
        MX F, G;
        processMatrices(st, double(float(run[i].t - run[i - 1].t)), ma, mw, F, G);
        MX before = u.full(i - 1), A = before.topLeftCorner(15, 15), B = before.topRightCorner(15, u.n);
        MX N = G * u.Q * G.transpose();
        MX A1 = F * A * F.transpose() + N, B1 = F * B;
        // rounding grows with the magnitudes that are added up
        // (entries of a rotation are rounded relative to one, not to their own size)
        auto magnitude = [](const MX &m) { MX r = m; for (int i = 0; i < r.rows(); i += 3) for (int j = 0; j < r.cols(); j += 3) r.block<3, 3>(i, j).setConstant(m.block<3, 3>(i, j).cwiseAbs().maxCoeff()); return r; };
        MX aF = magnitude(F), aG = magnitude(G), tol = 3e-6 * (aF * A.cwiseAbs() * aF.transpose() + aG * u.Q * aG.transpose());
        auto &it = *pq.items[i];
        for (int r = 0; r < 15; ++r) for (int c = 0; c < 15; ++c)
            PBT_CHECK(std::fabs(double(it.imuCov(r, c)) - A1(r, c)) <= tol(r, c) + 1e-30, "step " << i << ": inertial covariance (" << r << ", " << c << ") is " << it.imuCov(r, c) << ", expected " << A1(r, c));
        PBT_CHECK(it.imuExCamCov.cols() == u.n, "step " << i << ": cross covariance has " << it.imuExCamCov.cols() << " columns, expected " << u.n);
        MX tolB = 3e-6 * (aF * B.cwiseAbs());
        for (int r = 0; r < 15; ++r) for (int c = 0; c < u.n; ++c)
            PBT_CHECK(std::fabs(double(it.imuExCamCov(r, c)) - B1(r, c)) <= tolB(r, c) + 1e-30, "step " << i << ": cross covariance (" << r << ", " << c << ") is " << it.imuExCamCov(r, c) << ", expected " << B1(r, c));
        PBT_CHECK(pq.exCamCov == ex0, "propagation changed the covariance of the window");
        grown = std::max(grown, N.norm());
    }
    x.label("cross covariance", P.topRightCorner(15, u.n).size() && P.topRightCorner(15, u.n).norm() > 0);
    x.label("from scratch", P.norm() == 0);
    x.nontrivial(n > 2 && (P.norm() > 0 || grown > 0));
}

// one step against numerical differentiation of the true kinematics (an oracle that shares no formula with the code)
void differentiated(pbt::Src &s, pbt::Ctx &x) {
    Setup u(s);
    auto run = imuRun(s, 2);
    PropagateQueue &pq = u.z.q;
    for (double &v : u.q) v = 0;
    u.z.q.InitializeProcessNoiseMatrix(0, 0, 0, 0);
    pq.Propagate(f(run[0].a), f(run[0].w), run[0].t);
    MX P = u.install(s, 6);
    pq.Propagate(f(run[1].a), f(run[1].w), run[1].t);
    const Nav st = nav(pq.items[0]->nominalState);
    const double dt = run[1].t - run[0].t;
    const Nav out = integrate(st, run[0], run[1], u.ba, u.bg, u.g);
    auto perturbed = [&](int i, double h) {
        Nav n = st;
        V3 ba = u.ba, bg = u.bg, e(0, 0, 0);
        e[i % 3] = h;
        switch (i / 3) { case 0: n.p += e; break; case 1: n.v += e; break; case 2: n.q = n.q * expq(e); break; case 3: ba += e; break; default: bg += e; }
        Nav r = integrate(n, run[0], run[1], ba, bg, u.g);
        VX v(15);
        v << r.p - out.p, r.v - out.v, logq((out.q.conjugate() * r.q).normalized()), ba - u.ba, bg - u.bg;
        return v;
    };
    MX F(15, 15);
    for (int i = 0; i < 15; ++i) { const double h = 1e-5; F.col(i) = (perturbed(i, h) - perturbed(i, -h)) / (2 * h); }
    // what a first-order discretisation may neglect
    const double W = std::max((run[0].w - u.bg).norm(), (run[1].w - u.bg).norm()), A = std::max((run[0].a - u.ba).norm(), (run[1].a - u.ba).norm()), th = W * dt,
                 dA = (run[1].a - run[0].a).norm();
    MX dF = MX::Zero(15, 15);
    auto set = [&](int r, int c, double v) { dF.block<3, 3>(r, c).setConstant(v); };
    set(0, 6, dt * dt * A); set(0, 9, dt * dt); set(0, 12, dt * dt * dt * A);
    set(3, 6, dt * A * th + dt * dt * dA * 0.01); set(3, 9, dt * th); set(3, 12, dt * dt * A); set(6, 6, th * th); set(6, 12, dt * th);
    dF.array() *= 1.2;
    MX aF = F.cwiseAbs(), A0 = P.topLeftCorner(15, 15), B0 = P.topRightCorner(15, 6);
    MX ref = F * A0 * F.transpose(), refB = F * B0;
    MX tol = dF * A0.cwiseAbs() * (aF + dF).transpose() + aF * A0.cwiseAbs() * dF.transpose() + 1e-5 * aF * A0.cwiseAbs() * aF.transpose();
    MX tolB = dF * B0.cwiseAbs() + 1e-5 * aF * B0.cwiseAbs();
    x.desc << str(run[0]) << " -> " << str(run[1]) << ", q " << str(st.q) << ", |P| " << P.norm();
    auto &it = *pq.items[1];
    for (int r = 0; r < 15; ++r) for (int c = 0; c < 15; ++c)
        PBT_CHECK(std::fabs(it.imuCov(r, c) - ref(r, c)) <= tol(r, c) + 1e-12, "inertial covariance (" << r << ", " << c << ") is " << it.imuCov(r, c) << ", the differentiated kinematics give " << ref(r, c) << " +- " << tol(r, c));
    for (int r = 0; r < 15; ++r) for (int c = 0; c < 6; ++c)
        PBT_CHECK(std::fabs(it.imuExCamCov(r, c) - refB(r, c)) <= tolB(r, c) + 1e-12, "cross covariance (" << r << ", " << c << ") is " << it.imuExCamCov(r, c) << ", the differentiated kinematics give " << refB(r, c) << " +- " << tolB(r, c));
    x.nontrivial(P.norm() > 0 && W > 0 && A > 0);
}

// a covariance stays a covariance
void validity(pbt::Src &s, pbt::Ctx &x) {
    Setup u(s);
    const int n = s.range(2, 60);
    auto run = imuRun(s, n);
    PropagateQueue &pq = u.z.q;
    pq.Propagate(f(run[0].a), f(run[0].w), run[0].t);
    MX P0 = s.chance(1, 4) ? u.full(0) : u.install(s, 6 * s.range(1, 3));
    double tr = P0.topLeftCorner(15, 15).trace();
    for (int i = 1; i < n; ++i) pq.Propagate(f(run[i].a), f(run[i].w), run[i].t);
    MX P = u.full(n - 1);
    PBT_CHECK(P.allFinite(), "the covariance is not finite");
    // compare in units of the standard deviations
    VX sd = P.diagonal().cwiseMax(0).cwiseSqrt();
    for (int i = 0; i < P.rows(); ++i) PBT_CHECK(P(i, i) >= -1e-9, "negative variance " << P(i, i) << " of state " << i);
    MX C = P;
    for (int i = 0; i < P.rows(); ++i) for (int j = 0; j < P.cols(); ++j) C(i, j) = P(i, j) / ((sd(i) + 1e-9) * (sd(j) + 1e-9));
    PBT_CHECK((C - C.transpose()).cwiseAbs().maxCoeff() < 1e-2, "the covariance is not symmetric");
    double least = Eigen::SelfAdjointEigenSolver<MX>(0.5 * (C + C.transpose())).eigenvalues()(0);
    PBT_CHECK(least > -0.03, "the covariance has a negative direction, " << least << " in units of the variances");
    // without feedback uncertainty of the biases only grows
    for (int i = 9; i < 15; ++i) {
        double grow = P(i, i) - P0(i, i), want = 0;
        for (int k = 1; k < n; ++k) want += std::pow(run[k].t - run[k - 1].t, 2) * u.q[i < 12 ? 2 : 3];
        PBT_CHECK(std::fabs(grow - want) < 1e-4 * want + 1e-5 * P(i, i) + 1e-12, "bias variance " << i << " grew by " << grow << ", the random walk explains " << want);
    }
    x.desc << n << " steps, trace " << tr << " -> " << P.trace();
    x.nontrivial(n > 5 && P0.norm() > 0);
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C07",
            "linearised: covariance of every step against F P F' + G Q G' in double precision; differentiated: one step against numerical differentiation of the kinematics; "
            "validity: symmetric, positive, biases grow by the random walk. Non-trivial when there is a covariance (or noise) and motion",
            {"finite measurements with increasing time stamps", "noise values are used as variances per squared second, as the initialisation function defines them"},
            {{"linearised", linearised, 120000, 2500000}, {"differentiated", differentiated, 60000, 1200000}, {"validity", validity, 40000, 800000}}};
}
