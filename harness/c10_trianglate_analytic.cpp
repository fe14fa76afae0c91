// C10: linear triangulation returns the point all observations agree on, in front of every camera, or refuses.
// units: geometry
#include "geomref.hpp"
#include <trianglation.hpp>
#include <algorithm>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
#ifndef RC
#define RC 60
#endif
struct Scene { std::vector<Cam> cams; V3 pw; std::vector<V2> obs; double par, noise; };

Scene scene(pbt::Src &s, double noise) {
    Scene c;
    const V3 centre = vec(s, s.pick<double>({0.0, 5, 30}));
    c.pw = centre + dir(s) * s.logReal(0.5, 30);
    if (s.chance(1, 8)) c.pw[s.range(0, 2)] = 0;
    const double dist = (c.pw - centre).norm();
    const int n = s.range(2, s.chance(1, 5) ? 30 : 6);
    const double spread = dist * s.pick<double>({0.02, 0.1, 0.4, 0.4});
    for (int i = 0; i < n; ++i) c.cams.push_back(rounded(lookingAt(s, centre, spread, c.pw, 0.7)));
    c.par = parallax(c.cams, c.pw);
    c.noise = noise;
    for (auto &k : c.cams) c.obs.push_back(project(k, c.pw) + noise * V2(s.gauss(), s.gauss()));
    return c;
}
void describe(pbt::Ctx &x, const Scene &c) {
    x.desc << c.cams.size() << " views of " << str(c.pw) << ", parallax " << c.par << " rad, noise " << c.noise << ":";
    for (std::size_t i = 0; i < c.cams.size(); ++i) x.desc << " [q " << str(c.cams[i].q) << " p " << str(c.cams[i].p) << " obs " << c.obs[i].x() << " " << c.obs[i].y() << "]";
}

// a Trianglator that has done other work before, on more and on fewer views
void warm(pbt::Src &s, pbt::Ctx &x, Trianglator &t) {
    for (int i = s.pick<int>({0, 0, 1, 2}); i > 0; --i) {
        Scene c = scene(s, 0);
        x.desc << "after ";
        describe(x, c);
        x.desc << "; ";
        Views v = views(c.cams, c.obs);
        fV3 p;
        t.TrianglateAnalytic(v.q, v.p, v.n, p);
        x.label("used before");
    }
}

// what noise and single precision leave of the null vector of the linear system, as a distance
double uncertainty(const Views &v, const V3 &pw, double noise, double range) {
    VX sv = Eigen::JacobiSVD<MX>(dlt(v)).singularValues();
    const double h = std::sqrt(1 + pw.squaredNorm()), res = noise * range * std::sqrt(2.0 * v.q.size()) / h;
    if (res > 0.05 * sv(2)) return INFINITY;
    return 1e-5 + RC * 6e-8 * sv(0) / sv(2) * h * h + 4 * res / sv(2) * h * h;
}
void recovers(pbt::Src &s, pbt::Ctx &x) {
    Scene c = scene(s, s.chance(1, 2) ? 0 : s.logReal(1e-5, 1e-2));
    describe(x, c);
    if (c.par < 0.01 || c.par < 30 * c.noise) { x.label("too little parallax"); return; }
    Trianglator t;
    warm(s, x, t);
    Views v = views(c.cams, c.obs);
    fV3 p(float(s.real(-5, 5)), 0, 0);                           // the value before does not matter
    double least = INFINITY;
    for (auto &k : c.cams) least = std::min(least, depth(k, c.pw));
    const double range = (c.pw - c.cams[0].p).norm();
    const double bound = uncertainty(v, c.pw, c.noise, range), rnd = uncertainty(v, c.pw, 0, range);
    if (bound > 0.05 * range) { x.label("badly conditioned"); return; }
    PBT_CHECK(t.TrianglateAnalytic(v.q, v.p, v.n, p), "a point " << range << " m in front of " << c.cams.size() << " cameras with " << c.par << " rad of parallax is refused");
    const double err = (d(p) - c.pw).norm();
    PBT_CHECK(err < bound, "triangulated " << str(d(p)) << " instead of " << str(c.pw) << ", " << err << " m away with " << c.par << " rad of parallax");
    // the answer does not depend on the order of the views, nor on what was triangulated before
    if (s.chance(1, 2)) {
        std::vector<std::size_t> o(c.cams.size());
        for (std::size_t i = 0; i < o.size(); ++i) o[i] = i;
        for (std::size_t i = o.size() - 1; i > 0; --i) std::swap(o[i], o[s.choice(i)]);
        Views w;
        for (auto i : o) { w.q.push_back(v.q[i]); w.p.push_back(v.p[i]); w.n.push_back(v.n[i]); }
        fV3 p2;
        Trianglator t2;
        PBT_CHECK(t2.TrianglateAnalytic(w.q, w.p, w.n, p2) && (d(p2) - d(p)).norm() < 2 * rnd, "reordering the views moves the point from " << str(d(p)) << " to " << str(d(p2)));
    }
    x.label("noisy", c.noise > 0);
    x.label("many views", c.cams.size() > 6);
    x.nontrivial(c.par < 1);
}

// any input at all: an accepted point is finite, in front of all cameras and the best linear solution
void valid(pbt::Src &s, pbt::Ctx &x) {
    Scene c = scene(s, s.pick<double>({0, 0.01, 0.3}));
    int kind = s.range(0, 9);
    if (kind == 0) c.cams.resize(s.range(0, 1));                                   // too few views
    else if (kind == 1) for (auto &k : c.cams) k.p = c.cams[0].p;                  // no baseline
    else if (kind == 2) for (auto &k : c.cams) k = c.cams[0];
    else if (kind == 3) { V3 f = dir(s); for (auto &k : c.cams) { k.q = Q::FromTwoVectors(V3(0, 0, 1), f); if (s.chance(1, 2)) k.p = vec(s, 3); } for (auto &o : c.obs) o = c.obs[0]; }   // parallel rays
    else if (kind < 7) {                                                           // behind one or all cameras
        for (auto &k : c.cams) if (s.chance(1, 2)) k.q = (k.q * expq(V3(M_PI, 0, 0))).normalized();
        for (std::size_t i = 0; i < c.cams.size(); ++i) { c.cams[i] = rounded(c.cams[i]); c.obs[i] = project(c.cams[i], c.pw); }
    }
    c.obs.resize(c.cams.size());
    describe(x, c);
    Views v = views(c.cams, c.obs);
    Trianglator t;
    warm(s, x, t);
    fV3 p(0, 0, 0);
    const bool ok = t.TrianglateAnalytic(v.q, v.p, v.n, p);
    x.label(ok ? "accepted" : "refused");
    if (c.cams.size() < 2) { PBT_CHECK(!ok, c.cams.size() << " views are enough to triangulate"); x.label("too few views"); return; }
    MX A = dlt(v);
    Eigen::JacobiSVD<MX> svd(A, Eigen::ComputeFullV);
    VX sv = svd.singularValues(), ref = svd.matrixV().col(3);
    const bool sharp = sv(2) - sv(3) > 1e-3 * sv(0);                               // the solution is determined, single precision included
    bool behind = false, clear = sharp && std::fabs(ref(3)) > 1e-3;
    if (clear) for (auto &k : c.cams) { double z = depth(k, ref.head<3>() / ref(3)); behind = behind || z < 0; clear = clear && std::fabs(z) > 0.05 * (k.p - V3(ref.head<3>() / ref(3))).norm() + 0.01; }
    if (ok) {
        const V3 pw = d(p);
        PBT_CHECK(pw.allFinite(), "accepted point " << str(pw));
        for (auto &k : c.cams) PBT_CHECK(depth(k, pw) >= -1e-5 * (1 + pw.norm() + k.p.norm()), "accepted point " << str(pw) << " lies " << depth(k, pw) << " m in front of a camera");
        VX h(4);
        h << pw, 1;
        const double res = (A * h).norm() / h.norm();
        PBT_CHECK(res <= 1.001 * sv(3) + 5e-6 * sv(0), "accepted point " << str(pw) << " leaves the residual " << res << ", the best is " << sv(3));
        if (clear) PBT_CHECK(!behind, "a point behind a camera is accepted as " << str(pw));
    } else if (clear) {
        PBT_CHECK(behind, "the point " << str(ref.head<3>() / ref(3)) << " in front of all cameras is refused");
    }
    if (sv(2) - sv(3) > 0.4 * sv(0) && std::fabs(ref(3)) < 1e-10) {                // rays that do not meet at all
        PBT_CHECK(!ok, "parallel rays are said to meet at " << str(d(p)));
        x.label("parallel rays");
    }
    x.label("decided", clear);
    x.label("behind a camera", clear && behind);
    x.nontrivial(clear);
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C10",
            "recovers: 2 to 30 views of a point, error against the truth within noise over parallax, non-trivial from 0.01 to 1 rad of parallax; valid: arbitrary views (no baseline, parallel rays, points "
            "behind cameras) against a double-precision SVD, non-trivial when the solution is well determined",
            {"as many rotations, positions and observations as views"},
            {{"recovers", recovers, 400000, 8000000}, {"valid", valid, 400000, 8000000}}};
}
