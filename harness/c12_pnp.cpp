// C12: the pose from 3D-2D correspondences is the (robustly weighted) least-squares pose.
// units: geometry
#include "geomref.hpp"
#include <perspective_n_point.hpp>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
struct Problem { std::vector<V3> w; std::vector<V2> o; Cam truth, start; std::vector<bool> gross; double depth, noise; };
using M6 = Eigen::Matrix<double, 6, 6>;
using V6 = Eigen::Matrix<double, 6, 1>;

Problem problem(pbt::Src &s, double grossShare, double noise, int nMin) {
    Problem p;
    p.truth.q = rot(s);
    p.truth.p = vec(s, s.pick<double>({0.0, 3, 30}));
    const int n = s.range(nMin, s.chance(1, 3) ? 60 : 16);
    p.depth = s.logReal(1, 20);
    p.noise = noise;
    p.truth = rounded(p.truth);
    for (int i = 0; i < n; ++i) {
        const double z = p.depth * s.real(0.4, 1.6);
        V3 c(z * s.real(-0.8, 0.8), z * s.real(-0.8, 0.8), z);
        V3 w = d(f(V3(p.truth.q * c + p.truth.p)));
        p.w.push_back(w);
        V2 o = project(p.truth, w) + noise * V2(s.gauss(), s.gauss());
        const bool g = s.unit() < grossShare;
        if (g) { const double a = s.real(-M_PI, M_PI), r = s.real(1.3, 3); o += r * V2(std::cos(a), std::sin(a)); }
        p.gross.push_back(g);
        p.o.push_back(d(f(o)));
    }
    const double away = s.pick<double>({0, 0.02, 0.1, 0.1, 0.25});
    p.start.q = p.truth.q * expq(dir(s) * s.real(0, away));
    p.start.p = p.truth.p + dir(s) * s.real(0, away * p.depth);
    p.start = rounded(p.start);
    return p;
}
std::string str2(const V2 &v) { std::ostringstream o; o.precision(9); o << "(" << v.x() << ", " << v.y() << ")"; return o.str(); }
void describe(pbt::Ctx &x, const Problem &p) {
    x.desc << p.w.size() << " points, noise " << p.noise << ", pose q " << str(p.truth.q) << " p " << str(p.truth.p) << ", start q " << str(p.start.q) << " p " << str(p.start.p) << ":";
    for (std::size_t i = 0; i < p.w.size() && i < 60; ++i) x.desc << " " << str(p.w[i]) << "->" << str2(p.o[i]) << (p.gross[i] ? "*" : "");
}
double weight(double r) { return r > 1 ? std::log(2.0) / r : 1; }
struct Ref { Cam pose; bool ok = true; double lastStep = 0, nearOne = INFINITY, cond = 0; int steps = 0; };
// least squares in double precision, from the same start
Ref reference(const Problem &p, bool robust, Cam start, int iters) {
    Ref r;
    r.pose = start;
    for (int k = 0; k < iters; ++k) {
        M6 H = M6::Zero();
        V6 b = V6::Zero();
        for (std::size_t i = 0; i < p.w.size(); ++i) {
            V3 c = r.pose.q.conjugate() * (p.w[i] - r.pose.p);
            if (c.z() < 0.05 * p.depth) { r.ok = false; return r; }
            V2 e = V2(c.x() / c.z(), c.y() / c.z()) - p.o[i];
            Eigen::Matrix<double, 2, 3> jp;
            jp << 1 / c.z(), 0, -c.x() / (c.z() * c.z()), 0, 1 / c.z(), -c.y() / (c.z() * c.z());
            Eigen::Matrix<double, 2, 6> J;
            J << -jp * r.pose.q.conjugate().toRotationMatrix(), jp * skew(c);
            double w = robust ? weight(e.norm()) : 1;
            r.nearOne = std::min(r.nearOne, std::fabs(e.norm() - 1));
            H += w * J.transpose() * J;
            b -= w * J.transpose() * e;
        }
        // scaled, so that metres and radians compare
        V6 sc;
        sc << V3::Constant(p.depth), V3::Ones();
        M6 Hs = sc.asDiagonal() * H * sc.asDiagonal();
        Eigen::SelfAdjointEigenSolver<M6> es(Hs);
        r.cond = std::max(r.cond, es.eigenvalues()(5) / std::max(1e-300, es.eigenvalues()(0)));
        V6 dx = H.ldlt().solve(b);
        if (!dx.allFinite()) { r.ok = false; return r; }
        r.pose.p += dx.head<3>();
        r.pose.q = (r.pose.q * expq(dx.tail<3>())).normalized();
        r.lastStep = dx.tail<3>().norm() + dx.head<3>().norm() / p.depth;
        ++r.steps;
        if (r.lastStep > 0.8) { r.ok = false; return r; }
    }
    return r;
}
double distance(const Cam &a, const Cam &b, double depth) { return angle(a.q, b.q) + (a.p - b.p).norm() / depth; }

bool estimate(const Problem &p, bool robust, Cam &pose) {
    std::vector<vio::Vector3> w;
    std::vector<vio::Vector2> o;
    for (auto &v : p.w) w.push_back(f(v));
    for (auto &v : p.o) o.push_back(f(v));
    PnPSolver solver;
    vio::Quaternion q = f(pose.q);
    vio::Vector3 t = f(pose.p);
    const bool ok = robust ? solver.EstimatePoseKernel(w, o, q, t) : solver.EstimatePose(w, o, q, t);
    pose = {d(q), d(t)};
    return ok;
}

void least(pbt::Src &s, pbt::Ctx &x) {
    const bool robust = s.chance(1, 2);
    const double noise = s.chance(1, 3) ? 0 : s.logReal(1e-5, 1e-2);
    const double share = robust ? s.pick<double>({0, 0.05, 0.2}) : s.pick<double>({0, 0, 0.03});
    Problem p = problem(s, share, noise, share > 0 ? 7 : 4);
    x.desc << (robust ? "robust, " : "plain, ");
    describe(x, p);
    Ref r = reference(p, robust, p.start, 7);
    if (!r.ok || r.cond > 1e4 || r.lastStep > 1e-4 || r.nearOne < 0.01) { x.label("not a clear case"); return; }
    // the reference goes on to the optimum; a slightly different start tells how sensitive the way there is
    Ref full = reference(p, robust, r.pose, 20);
    Cam other = p.start;
    other.p += V3(1, -1, 1) * 1e-4 * p.depth;
    other.q = (other.q * expq(V3(1e-4, 1e-4, -1e-4))).normalized();
    Ref near = reference(p, robust, other, 27);
    if (!full.ok || !near.ok || full.nearOne < 0.01 || near.nearOne < 0.01 || full.lastStep > 1e-7 || distance(full.pose, near.pose, p.depth) > 1e-6 || distance(reference(p, robust, r.pose, 3).pose, full.pose, p.depth) > 1e-5) { x.label("not a clear case"); return; }
    Cam got = p.start;
    PBT_CHECK(estimate(p, robust, got), "refused");
    PBT_CHECK(got.p.allFinite() && std::fabs(got.q.norm() - 1) < 1e-3, "pose q " << str(got.q) << " p " << str(got.p));
    got.q.normalize();
    const double scale = (p.truth.p.norm() + 2 * p.depth) / p.depth, dist = distance(got, full.pose, p.depth);
    const double bound = 1e-4 + 1e-6 * scale * std::sqrt(full.cond) * 4;
    PBT_CHECK(dist < bound, "the estimated pose q " << str(got.q) << " p " << str(got.p) << " is " << dist << " from the least-squares pose q " << str(full.pose.q) << " p " << str(full.pose.p));
    if (noise == 0 && share == 0) PBT_CHECK(distance(got, p.truth, p.depth) < bound, "exact observations of the pose q " << str(p.truth.q) << " p " << str(p.truth.p) << " give q " << str(got.q) << " p " << str(got.p));
    bool gross = false;
    for (bool g : p.gross) gross = gross || g;
    x.label("robust", robust);
    x.label("gross errors", gross);
    x.label("exact", noise == 0 && !gross);
    x.nontrivial(distance(p.start, p.truth, p.depth) > 0.02);
}

// anything at all: an accepted pose is a pose
void valid(pbt::Src &s, pbt::Ctx &x) {
    const bool robust = s.chance(1, 2);
    Problem p = problem(s, s.pick<double>({0, 0.5}), s.pick<double>({0, 0.01, 1}), 0);
    const int kind = s.range(0, 7);
    if (kind == 1) for (auto &w : p.w) w = p.w[0];
    if (kind == 2) for (std::size_t i = 0; i < p.w.size(); ++i) p.w[i] = p.start.p + p.start.q * V3(1, 0, 0) * double(i);      // in the plane of the camera
    if (kind == 3) p.start.p += vec(s, 100);
    if (kind == 4) for (auto &w : p.w) w = p.start.p;
    if (kind == 5) for (auto &w : p.w) w.setZero();
    const int extra = s.chance(1, 6) ? s.range(1, 3) : 0;
    for (int i = 0; i < extra; ++i) { if (s.chance(1, 2) && !p.o.empty()) p.o.pop_back(); else p.o.push_back(V2(0, 0)); }
    x.desc << (robust ? "robust, kind " : "plain, kind ") << kind << ", " << p.w.size() << " points, " << p.o.size() << " observations, start q " << str(p.start.q) << " p " << str(p.start.p) << ":";
    for (std::size_t i = 0; i < p.w.size(); ++i) x.desc << " " << str(p.w[i]);
    Cam got = p.start;
    const bool ok = estimate(p, robust, got);
    if (p.w.size() != p.o.size() || p.w.empty()) {
        PBT_CHECK(!ok, p.w.size() << " points and " << p.o.size() << " observations are accepted");
        PBT_CHECK(got.p == d(f(p.start.p)) && got.q.coeffs() == d(f(p.start.q)).coeffs(), "a refused problem changes the pose");
        x.label("refused sizes");
        x.nontrivial();
        return;
    }
    x.label(ok ? "accepted" : "refused");
    if (ok) PBT_CHECK(got.p.allFinite() && std::fabs(got.q.norm() - 1) < 1e-3, "accepted pose q " << str(got.q) << " p " << str(got.p));
    x.nontrivial(kind > 0 && kind < 6);
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C12",
            "least: 4 (with gross errors 7) to 60 points, poses anywhere, starts up to 0.25 rad and 25 % of the depth away, noise to 0.01, gross errors up to 20 %, against a double-precision least-squares solver run from the same start; "
            "non-trivial when the start is wrong and the optimum clear; valid: degenerate and mismatched problems",
            {"the start lies in the basin of the least-squares pose, as decided with the reference", "no residual is at the step of the robust weight"},
            {{"least", least, 200000, 6000000}, {"valid", valid, 200000, 4000000}}};
}
