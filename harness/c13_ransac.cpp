// variant: san
// C13: robust pose estimation finds the pose of the consistent correspondences and tells which those are.
// units: geometry
#include "geomref.hpp"
#include <perspective_n_point.hpp>
#include <cstdlib>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
struct Problem { std::vector<vio::Vector3> w; std::vector<vio::Vector2> o; Cam truth, start; std::vector<bool> gross; int nGross = 0; double depth; };

Problem problem(pbt::Src &s, int n, double share, double noise, double away) {
    Problem p;
    p.truth = rounded({rot(s), vec(s, s.pick<double>({0.0, 3, 20}))});
    p.depth = s.real(1, 10);
    for (int i = 0; i < n; ++i) {
        const double z = p.depth * s.real(0.5, 1.5);
        V3 w = p.truth.q * V3(z * s.real(-0.8, 0.8), z * s.real(-0.8, 0.8), z) + p.truth.p;
        V2 o = project(p.truth, w) + noise * V2(s.gauss(), s.gauss());
        const bool g = i >= 3 && s.unit() < share;
        if (g) { const double a = s.real(-M_PI, M_PI), r = s.real(0.3, 1.5); o += r * V2(std::cos(a), std::sin(a)); ++p.nGross; }
        p.gross.push_back(g);
        p.w.push_back(f(w));
        p.o.push_back(f(o));
    }
    p.start = rounded({p.truth.q * expq(dir(s) * s.real(0, away)), p.truth.p + dir(s) * s.real(0, away * p.depth)});
    return p;
}
void describe(pbt::Ctx &x, const Problem &p) {
    x.desc << p.w.size() << " points, " << p.nGross << " of them gross, pose q " << str(p.truth.q) << " p " << str(p.truth.p) << ", start q " << str(p.start.q) << " p " << str(p.start.p) << ":";
    for (std::size_t i = 0; i < std::min(p.w.size(), p.o.size()) && i < 60; ++i) x.desc << " " << str(d(p.w[i])) << "->(" << p.o[i].x() << ", " << p.o[i].y() << ")" << (p.gross[i] ? "*" : "");
}
using V6 = Eigen::Matrix<double, 6, 1>;
double error(const Cam &c, const vio::Vector3 &w, const vio::Vector2 &o) { return (project(c, d(w)) - d(o)).squaredNorm(); }

// the flags and the pose belong together, whatever the call
void flags(pbt::Src &s, pbt::Ctx &x) {
    const int n = s.range(0, s.chance(1, 3) ? 50 : 8);
    Problem p = problem(s, n, s.pick<double>({0, 0.2, 0.6, 1}), s.pick<double>({0, 0.005, 0.05}), s.pick<double>({0, 0.1, 0.5}));
    PnPSolver solver;
    solver.ransacParam.inlierThres = float(s.logReal(1e-5, 1e-1));
    solver.ransacParam.maxIterateTimes = s.range(1, 40);
    solver.ransacParam.inlierRateThres = float(s.real(0, 1));
    const int missing = s.chance(1, 8) && n > 0 ? 1 : 0;
    if (missing) p.o.pop_back();
    const std::uint32_t seed = s.choice(1u << 20);
    std::vector<bool> in;
    for (int i = s.range(0, 60); i > 0; --i) in.push_back(s.chance(1, 2));         // left over from an earlier call
    x.desc << "threshold " << solver.ransacParam.inlierThres << ", rounds " << solver.ransacParam.maxIterateTimes << ", " << p.o.size() << " observations, " << in.size() << " flags before; ";
    describe(x, p);
    std::srand(seed);
    vio::Quaternion q = f(p.start.q);
    vio::Vector3 t = f(p.start.p);
    const bool ok = solver.EstimatePoseRANSAC(p.w, p.o, q, t, in);                 // a loop without end shows as CPU time
    if (n < 3 || missing) { PBT_CHECK(!ok, n << " points and " << p.o.size() << " observations are accepted"); x.label("refused"); x.nontrivial(n < 3 && n > 0); return; }
    PBT_CHECK(ok, "refused");
    PBT_CHECK(in.size() == p.w.size(), in.size() << " flags for " << p.w.size() << " points");
    PBT_CHECK(t.allFinite() && std::fabs(d(q).norm() - 1) < 1e-3, "pose q " << str(d(q)) << " p " << str(d(t)));
    const Cam got{d(q).normalized(), d(t)};
    const double thr = solver.ransacParam.inlierThres, depth0 = p.depth;
    int inliers = 0, before = 0, clear = 0;
    for (int i = 0; i < n; ++i) {
        inliers += in[i];
        before += error(p.start, p.w[i], p.o[i]) < 0.9 * thr;
        const double z = depth(got, d(p.w[i])), e = error(got, p.w[i], p.o[i]);
        if (std::fabs(z) < 0.05 * depth0) continue;
        const double slack = 1e-5 * (1 + d(p.w[i]).norm() + got.p.norm()) / std::fabs(z) * (1 + std::sqrt(e));
        if (std::fabs(std::sqrt(e) - std::sqrt(thr)) < slack * 5) continue;
        ++clear;
        PBT_CHECK(bool(in[i]) == (e < thr), "point " << i << " has the squared error " << e << " under the returned pose, threshold " << thr << ", and is marked as an " << (in[i] ? "inlier" : "outlier"));
    }
    x.label("mixed", inliers > 0 && inliers < n);
    x.nontrivial(clear > 0 && inliers > 0 && inliers < n);
}

// the consistent points determine the pose well
bool determined(const Problem &p) {
    using M6 = Eigen::Matrix<double, 6, 6>;
    M6 H = M6::Zero();
    for (std::size_t i = 0; i < p.w.size(); ++i) {
        if (p.gross[i]) continue;
        V3 c = p.truth.q.conjugate() * (d(p.w[i]) - p.truth.p) / p.depth;
        Eigen::Matrix<double, 2, 3> jp;
        jp << 1 / c.z(), 0, -c.x() / (c.z() * c.z()), 0, 1 / c.z(), -c.y() / (c.z() * c.z());
        Eigen::Matrix<double, 2, 6> J;
        J << -jp, jp * skew(c);
        H += J.transpose() * J;
    }
    V6 e = Eigen::SelfAdjointEigenSolver<M6>(H).eigenvalues();
    return e(0) > 2e-3 * e(5);
}

// with enough rounds the pose is that of the consistent points
void finds(pbt::Src &s, pbt::Ctx &x) {
    Problem p = problem(s, s.range(8, 40), s.pick<double>({0, 0.1, 0.3}), s.pick<double>({0, 1e-3, 3e-3}), s.pick<double>({0, 0.02, 0.1}));
    const int n = int(p.w.size());
    describe(x, p);
    if (p.nGross > 0.4 * n || !determined(p)) throw pbt::Discard{};
    PnPSolver solver;
    solver.ransacParam.maxIterateTimes = 300;
    solver.ransacParam.inlierThres = float(4e-4);                                  // 0.02
    solver.ransacParam.inlierRateThres = s.chance(1, 2) ? 2.0f : float(0.95 * (n - p.nGross) / n);
    std::srand(unsigned(s.choice(1u << 20)));
    vio::Quaternion q = f(p.start.q);
    vio::Vector3 t = f(p.start.p);
    std::vector<bool> in;
    PBT_CHECK(solver.EstimatePoseRANSAC(p.w, p.o, q, t, in), "refused");
    const Cam got{d(q).normalized(), d(t)};
    int kept = 0, wrong = 0;
    for (int i = 0; i < n; ++i) { kept += !p.gross[i] && in[i]; wrong += p.gross[i] && in[i]; }
    PBT_CHECK(kept >= 0.85 * (n - p.nGross), "only " << kept << " of " << n - p.nGross << " consistent points (" << n << " in all) agree with the returned pose q " << str(got.q) << " p " << str(got.p));
    x.label("gross errors", p.nGross > 0);
    x.label("all rounds", solver.ransacParam.inlierRateThres > 1);
    x.nontrivial(p.nGross > 0);
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C13",
            "flags: 0 to 50 points, any share of gross errors, arbitrary earlier flags, 1 to 40 rounds; non-trivial with both inliers and outliers, or when too few points must be refused; "
            "finds: 8 to 40 points, up to 40 % gross errors, 300 rounds; non-trivial with gross errors",
            {"the C library's random numbers, seeded per case", "the start is within 0.1 rad and 10 % of the depth for the pose to be found"},
            {{"flags", flags, 60000, 2000000}, {"finds", finds, 4000, 150000}}};
}
