// C11: iterative triangulation refines any reasonable start to the least reprojection error, wherever the world origin is.
// units: geometry
#include "geomref.hpp"
#include <trianglation.hpp>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
// least squares from the truth, in double precision
V3 optimum(const Views &v, V3 p) {
    for (int it = 0; it < 20; ++it) {
        Eigen::Matrix3d A = Eigen::Matrix3d::Identity() * 1e-12;
        V3 b = V3::Zero();
        for (std::size_t i = 0; i < v.q.size(); ++i) {
            const Eigen::Matrix3d R = d(v.q[i]).toRotationMatrix().transpose();
            const V3 c = R * (p - d(v.p[i]));
            if (c.z() < 1e-3) return p;
            Eigen::Matrix<double, 2, 3> J;
            J << 1 / c.z(), 0, -c.x() / (c.z() * c.z()), 0, 1 / c.z(), -c.y() / (c.z() * c.z());
            J = J * R;
            const V2 r = V2(c.x() / c.z(), c.y() / c.z()) - d(v.n[i]);
            A += J.transpose() * J;
            b += J.transpose() * r;
        }
        const V3 step = A.ldlt().solve(b);
        if (!step.allFinite() || cost(v, p - step) > cost(v, p)) break;
        p -= step;
    }
    return p;
}

void refine(pbt::Src &s, pbt::Ctx &x) {
    const V3 centre = vec(s, s.pick<double>({0.0, 2, 20}));
    V3 pw = centre + dir(s) * s.logReal(1, 20);
    if (s.chance(1, 4)) pw.z() = 0;                                    // points in the plane of the world origin
    if (s.chance(1, 20)) pw.setZero();
    const double dist = (pw - centre).norm();
    if (dist < 0.5) throw pbt::Discard{};
    const int n = s.range(2, 12);
    const double spread = dist * s.pick<double>({0.1, 0.2, 0.4});
    const double noise = s.chance(1, 2) ? 0 : s.logReal(1e-5, 3e-3);
    std::vector<Cam> cams;
    std::vector<V2> obs;
    for (int i = 0; i < n; ++i) cams.push_back(rounded(lookingAt(s, centre, spread, pw, 0.5)));
    const double par = parallax(cams, pw);
    for (auto &c : cams) obs.push_back(project(c, pw) + noise * V2(s.gauss(), s.gauss()));
    const bool outlier = s.chance(1, 4);                               // a false match in one view, no optimum is known then
    if (outlier) obs[s.range(0, n - 1)] += expq(V3(0, 0, s.real(-M_PI, M_PI))).toRotationMatrix().col(0).head<2>() * s.logReal(0.003, 0.3);
    Views v = views(cams, obs);
    // the start: the point moved along and across the line of sight of the first camera
    const V3 ray = pw - cams[0].p;
    V3 start = outlier && s.chance(1, 2) ? optimum(v, pw) : cams[0].p + ray * s.pick<double>({1, 0.9, 1.1, 0.75, 1.3, 0.5, 2, 0.3, 4}) + vec(s, 0.05 * dist);
    for (auto &c : cams) if (depth(c, start) < 0.15 * dist) throw pbt::Discard{};
    x.desc << n << " views of " << str(pw) << ", parallax " << par << ", noise " << noise << ", start " << str(start);
    Trianglator t;
    fV3 p = f(start);
    const double c0 = cost(v, d(p));
    PBT_CHECK(t.TrianglateIterative(v.q, v.p, v.n, p), "a proper start is refused");
    const V3 got = d(p);
    PBT_CHECK(got.allFinite(), "refined to " << str(got));
    const double c1 = cost(v, got), cTrue = cost(v, pw), rnd = n * 1e-11 * (1 + std::pow((pw.norm() + 1) / dist, 2));
    PBT_CHECK(c1 <= c0 * 1.0001 + rnd, "the reprojection error grew from " << c0 << " to " << c1);
    if (!outlier && par > 0.08 && noise * 50 < par) {
        PBT_CHECK(c1 <= 1.05 * cTrue + 100 * rnd, "refined to " << str(got) << " with reprojection error " << c1 << ", the true point " << str(pw) << " has " << cTrue << ", the start had " << c0);
        const double bound = 12 * (noise * dist + 1e-6 * (1 + pw.norm() + dist)) / par;
        PBT_CHECK((got - pw).norm() < bound + 1e-4, "refined to " << str(got) << " instead of " << str(pw) << ", parallax " << par);
        x.nontrivial((start - pw).norm() > 0.01 * dist);
    }
    x.label("plane of the origin", pw.z() == 0);
    x.label("noisy", noise > 0);
    x.label("false match", outlier);
}

// the world frame is arbitrary
void worldFrame(pbt::Src &s, pbt::Ctx &x) {
    const V3 pw = dir(s) * s.real(2, 10);
    const int n = s.range(3, 8);
    std::vector<Cam> a, b;
    std::vector<V2> obs;
    const Q r = rot(s);
    const V3 t = s.chance(1, 3) ? V3(-(r * pw)) : vec(s, 10);          // also: the point at the origin
    for (int i = 0; i < n; ++i) {
        a.push_back(lookingAt(s, V3(0, 0, 0), 1.5, pw, 0.4));
        b.push_back({(r * a.back().q).normalized(), r * a.back().p + t});
        obs.push_back(project(a.back(), pw) + 1e-3 * V2(s.gauss(), s.gauss()));
    }
    if (parallax(a, pw) < 0.15) throw pbt::Discard{};
    V3 start = pw * s.real(0.85, 1.2);
    for (auto &c : a) if (depth(c, start) < 0.15 * pw.norm()) throw pbt::Discard{};
    Trianglator tr;
    Views va = views(a, obs), vb = views(b, obs);
    fV3 pa = f(start), pb = f(r * start + t);
    x.desc << n << " views of " << str(pw) << " in worlds turned by " << str(r) << " and moved by " << str(t);
    PBT_CHECK(tr.TrianglateIterative(va.q, va.p, va.n, pa) && tr.TrianglateIterative(vb.q, vb.p, vb.n, pb), "refused");
    const double diff = (r * d(pa) + t - d(pb)).norm();
    PBT_CHECK(diff < 2e-3 * pw.norm() / std::min(1.0, parallax(a, pw) * 2), "in another world frame the refined point is " << diff << " m elsewhere: " << str(r * d(pa) + t) << " and " << str(d(pb)));
    x.nontrivial();
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C11",
            "refine: 2 to 12 views of a point (also in the plane of the world origin) from starts up to 30 % off; cost never grows, reaches the optimum; worldFrame: the same problem in two world frames. "
            "Non-trivial with a wrong start and enough parallax",
            {"the start is in front of all cameras", "as many rotations, positions and observations as views, at least one"},
            {{"refine", refine, 1000000, 20000000}, {"worldFrame", worldFrame, 400000, 8000000}}};
}
