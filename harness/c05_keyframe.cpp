// C05: key frame decision (tracked features, mean parallax, translation) and the choice of the frame to marginalise.
// units: data_manager propagate update geometry
#include "common.hpp"
#include <multi_view_vision_update.hpp>
#include <set>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
struct Scene {
    FeatureManager fm;
    FrameManager wm;
    std::vector<std::map<uint32_t, V2>> cam0;                  // per frame: feature -> observation in camera 0
    std::vector<std::set<uint32_t>> seen;
};

// frames whose consecutive pairs share tracks of a chosen number, parallax and distance
void build(pbt::Src &s, pbt::Ctx &x, Scene &sc, int frames, int maxTracked) {
    V3 p = vec(s, 3);
    uint32_t next = 1;
    std::map<uint32_t, V2> cur;
    double t = 0;
    for (int k = 0; k < frames; ++k) {
        auto f = std::make_shared<Frame>(t += 0.1);
        sc.wm.AddNewFrame(f);
        const double dist = s.pick<double>({0, 0.5, 0.97, 1.03, 2, 10}) * sc.wm.maxKeyframeTranslation;
        p += dir(s) * dist;
        f->p_wb = vt::f(p);
        f->q_wb = vt::f(rot(s));
        std::map<uint32_t, V2> now;
        std::vector<uint32_t> ids;
        std::vector<std::shared_ptr<FeatureObserve>> obs;
        std::map<uint32_t, V2> cam0;
        const double par = s.pick<double>({0, 0.2, 0.95, 1.05, 3}) * sc.wm.minKeyframeMeanParallax;
        const bool uniform = s.chance(1, 2);
        int keep = s.chance(1, 3) ? int(cur.size()) : s.range(0, int(cur.size()));
        for (auto &c : cur) {
            if (keep-- <= 0) break;
            double a = s.real(-M_PI, M_PI), r = uniform ? par : par * s.real(0, 2);
            now[c.first] = c.second + r * V2(std::cos(a), std::sin(a));
        }
        int fresh = s.range(0, std::max(0, maxTracked - int(now.size())));
        for (int i = 0; i < fresh; ++i) { double u = s.real(-1, 1), v = s.real(-1, 1); now[next++] = V2(u, v); }
        for (auto &n : now) {
            std::unordered_map<uint32_t, Vector2> norms;
            // parallax counts camera 0 only: other cameras move differently, and some features miss camera 0
            bool left = !s.chance(1, 12), right = !left || s.chance(1, 2);
            if (left) { norms[0] = vt::f(n.second); cam0[n.first] = d(norms[0]); }
            if (right) norms[1] = Vector2(float(s.real(-3, 3)), 0.5f);
            ids.push_back(n.first);
            obs.push_back(std::make_shared<FeatureObserve>(norms));
        }
        std::vector<std::shared_ptr<Feature>> changed;
        sc.fm.AddNewFeatures(ids, obs, f->id, changed);
        f->AddFeatures(changed);
        sc.cam0.push_back(cam0);
        std::set<uint32_t> seen;
        for (auto &n : now) seen.insert(n.first);
        sc.seen.push_back(seen);
        cur = now;
    }
}

// 1 yes, 0 no, -1 too close to a threshold to say
int expected(Scene &sc, std::size_t k, std::string *why) {
    if (k == 0) { *why = "oldest"; return 1; }
    unsigned n = 0;
    double par = 0;
    for (auto &o : sc.cam0[k]) {
        auto it = sc.cam0[k - 1].find(o.first);
        if (it != sc.cam0[k - 1].end()) { ++n; par += (o.second - it->second).norm(); }
    }
    double dist = (d(sc.wm.frames[k]->p_wb) - d(sc.wm.frames[k - 1]->p_wb)).norm();
    auto cmp = [](double v, double th) { return std::fabs(v - th) < 1e-3 * th + 1e-6 ? -1 : v > th ? 1 : 0; };
    int a = n < sc.wm.minKeyframeTrackedFeatureNum, b = n == 0 ? 0 : cmp(par / n, sc.wm.minKeyframeMeanParallax), c = cmp(dist, sc.wm.maxKeyframeTranslation);
    std::ostringstream o;
    o << n << " tracked (threshold " << sc.wm.minKeyframeTrackedFeatureNum << "), parallax " << (n ? par / n : NAN) << " (" << sc.wm.minKeyframeMeanParallax << "), translation " << dist
      << " (" << sc.wm.maxKeyframeTranslation << ")";
    *why = o.str();
    if (a == 1 || b == 1 || c == 1) return 1;
    if (b < 0 || c < 0) return -1;
    return 0;
}

void thresholds(pbt::Src &s, Scene &sc) {
    sc.wm.minKeyframeTrackedFeatureNum = s.range(0, 12);
    sc.wm.minKeyframeMeanParallax = float(s.logReal(0.01, 1));
    sc.wm.maxKeyframeTranslation = float(s.logReal(0.01, 5));
}

void decision(pbt::Src &s, pbt::Ctx &x) {
    Scene sc;
    sc.wm.Initialize(20);
    thresholds(s, sc);
    const int frames = s.range(1, 7);
    build(s, x, sc, frames, s.range(0, 24));
    PBT_CHECK(!sc.wm.IsKeyFrame(nullptr), "no frame is a key frame");
    int yes = 0, no = 0;
    for (int k = 0; k < frames; ++k) {
        std::string why;
        int e = expected(sc, k, &why);
        bool got = sc.wm.IsKeyFrame(sc.wm.frames[k]);
        x.desc << "frame " << k << ": " << why << " -> " << got << "; ";
        if (e < 0) continue;
        PBT_CHECK(got == (e == 1), "frame " << k << " of " << frames << " is " << (got ? "" : "not ") << "decided to be a key frame with " << why);
        if (k) (e ? yes : no)++;
    }
    x.label("key frame", yes > 0);
    x.label("not a key frame", no > 0);
    x.nontrivial(yes > 0 && no > 0);
}

void policy(pbt::Src &s, pbt::Ctx &x) {
    Scene sc;
    sc.wm.Initialize(s.range(1, 6));
    thresholds(s, sc);
    if (s.chance(1, 2)) { sc.wm.minKeyframeTrackedFeatureNum = s.range(0, 2); sc.wm.minKeyframeMeanParallax *= 3; }
    const int cams = s.range(1, 2);
    for (int i = 0; i < cams; ++i) sc.wm.extrinsics.emplace_back(Quaternion::Identity(), Vector3(0.1f * i, 0, 0));
    const int frames = s.range(2, int(sc.wm.maxWindowSize) + 1);
    build(s, x, sc, frames, s.range(0, 14));
    // the newest frame has no features: the update cannot use any, only the window is managed
    sc.wm.frames.back()->features.clear();
    PropagateQueue pq;
    pq.propagator = &sc.wm;
    pq.InitializeProcessNoiseMatrix(0.01f, 0.01f, 0.001f, 0.001f);
    pq.initState = IMUMotionState(vt::f(vec(s, 5)), vt::f(vec(s, 2)), vt::f(rot(s)));
    pq.Propagate(Vector3(0, 0, 9.8f), Vector3::Zero(), 0.1 * frames);
    pq.items.front()->imuCov.setIdentity();
    const int n = (cams + frames - 1) * 6;
    pq.items.front()->imuExCamCov.setZero(15, n);
    pq.exCamCov.setIdentity(n, n);
    Trianglator tri;
    PnPSolver pnp;
    MultiViewVisionUpdate up;
    up.propagator = &pq; up.featureManager = &sc.fm; up.frameManager = &sc.wm; up.trianglator = &tri; up.pnpSolver = &pnp;
    up.measureNoise = 0.01f;
    std::string why;
    int e = expected(sc, frames - 2, &why);
    const bool full = frames > int(sc.wm.maxWindowSize);
    x.desc << frames << " frames, window " << sc.wm.maxWindowSize << ", sub-newest: " << why << "; ";
    PBT_CHECK(up.Update(0.1 * frames, 0.005), "update without features fails");
    PBT_CHECK(int(sc.wm.frames.size()) == frames, "the update itself changed the window");
    if (!full) PBT_CHECK(up.margPolicy == NO_MARG, "policy " << up.margPolicy << " although the window is not full");
    else if (e >= 0) PBT_CHECK(up.margPolicy == (e ? MARG_OLDEST : MARG_SUBNEW), "policy " << up.margPolicy << " with a full window whose sub-newest frame is " << (e ? "" : "not ") << "a key frame: " << why);
    const int left = (cams + frames - (full ? 1 : 0)) * 6;
    PBT_CHECK(pq.exCamCov.rows() == left && pq.exCamCov.cols() == left && pq.items.front()->imuExCamCov.cols() == left, "covariance of " << pq.exCamCov.rows() << " for " << left << " states");
    x.label("window full", full);
    x.label("oldest", up.margPolicy == MARG_OLDEST);
    x.label("subnew", up.margPolicy == MARG_SUBNEW);
    x.nontrivial(full);
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C05",
            "decision: windows whose consecutive frames share tracks with chosen count, parallax and distance around the thresholds, non-trivial when both decisions occur; "
            "policy: an update over such a window, non-trivial when the window is full",
            {"the frame asked about is in the window", "values within 0.1 % of a threshold may be decided either way"},
            {{"decision", decision, 500000, 5000000}, {"policy", policy, 250000, 2500000}}};
}
