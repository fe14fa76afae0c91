// variant: san
// C15: through any history of images the covariance stays that of the frames in the window.
#include "msckfref.hpp"
#include <multi_view_vision_update.hpp>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
double covDiff(const MX &a, const MX &b, const VX &sd, int *row, int *col) {
    double m = 0;
    for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) {
        double v = std::fabs(a(i, j) - b(i, j)) / (sd(i) * sd(j));
        if (!(v <= m)) { m = std::isfinite(v) ? v : 1e9; *row = i; *col = j; }
    }
    return m;
}
MX held(const PropagateQueue &q, const IMUPropagateQueueItem &it) {
    const int m = int(q.exCamCov.rows());
    MX P(15 + m, 15 + m);
    P.topLeftCorner(15, 15) = it.imuCov.cast<double>();
    P.topRightCorner(15, m) = it.imuExCamCov.cast<double>();
    P.bottomLeftCorner(m, 15) = it.imuExCamCov.cast<double>().transpose();
    P.bottomRightCorner(m, m) = q.exCamCov.cast<double>();
    return P;
}
std::string where(int i, int ex) {
    static const char *imu[] = {"position", "velocity", "attitude", "accelerometer bias", "gyroscope bias"};
    if (i < 15) return imu[i / 3];
    i -= 15;
    if (i < 6 * ex) return "camera " + std::to_string(i / 6);
    return "frame " + std::to_string(i / 6 - ex);
}

void history(pbt::Src &s, pbt::Ctx &x) {
    FeatureManager fm;
    FrameManager wm;
    PropagateQueue pq;
    Trianglator tri;
    PnPSolver pnp;
    MultiViewVisionUpdate up;
    up.propagator = &pq; up.featureManager = &fm; up.frameManager = &wm; up.trianglator = &tri; up.pnpSolver = &pnp;
    up.measureNoise = 0.01f;
    pq.propagator = &wm;
    const int cams = s.range(1, 3), window = s.range(1, 6);
    wm.Initialize(window);
    wm.minKeyframeMeanParallax = 1e6f;
    wm.maxKeyframeTranslation = 1e6f;
    for (int i = 0; i < cams; ++i) wm.extrinsics.emplace_back(f(rot(s)), f(vec(s, 0.3)));
    const V3 g = d(IMUFullState::gravity_w);
    MX Qn = MX::Zero(12, 12);
    const double na = float(s.logReal(1e-3, 0.1)), ng = float(s.logReal(1e-4, 0.01));
    Qn.diagonal() << V3::Constant(na), V3::Constant(ng), V3::Constant(na), V3::Constant(ng);
    pq.InitializeProcessNoiseMatrix(float(na), float(ng), float(na), float(ng));
    // the filter right after its start: one frame in the window
    Filter m;
    m.imu = {d(f(vec(s, 5))), d(f(vec(s, 2))), d(f(rot(s)))};
    m.ba = d(f(vec(s, 0.1))); m.bg = d(f(vec(s, 0.02)));
    m.ex.resize(cams);
    m.frames.push_back({m.imu.q, m.imu.p});
    VX sig(m.dim());
    for (int i = 0; i < sig.size(); ++i) sig(i) = i % 3 ? sig(i - 1) : s.logReal(0.01, 0.3);
    MX L = randomRoot(s, sig);
    m.P = (L * L.transpose()).cast<float>().cast<double>();
    pq.bias_a = f(m.ba); pq.bias_g = f(m.bg);
    pq.initState = IMUMotionState(f(m.imu.p), f(m.imu.v), f(m.imu.q));
    double t = 5;
    const double dt = 0.005;
    auto measure = [&] { return Imu{t, d(f(vec(s, 1))), d(f(V3(vec(s, 2) + V3(0, 0, 9.8))))}; };
    std::vector<Imu> run{measure()};
    pq.Propagate(f(run[0].a), f(run[0].w), t);
    pq.items.front()->imuCov = f(m.P.topLeftCorner(15, 15));
    pq.items.front()->imuExCamCov = f(m.P.topRightCorner(15, m.dim() - 15));
    pq.exCamCov = f(m.P.bottomRightCorner(m.dim() - 15, m.dim() - 15));
    auto first = std::make_shared<Frame>(t);
    wm.AddNewFrame(first);
    first->p_wb = f(m.imu.p); first->q_wb = f(m.imu.q);
    std::vector<double> stamps{t};
    const int images = s.range(1, 14);
    int dropped = 0, oldest = 0, sub = 0, late = 0;
    x.desc << cams << " cameras, window " << window << ":";
    for (int k = 0; k < images; ++k) {
        const int n = s.range(1, 25);
        for (int i = 0; i < n; ++i) {
            t += dt;
            run.push_back(measure());
            PBT_CHECK(pq.Propagate(f(run.back().a), f(run.back().w), t), "propagation fails");
        }
        // the image belongs to one of the items, not always the last one
        const int at = int(run.size()) - 1 - (s.chance(1, 3) ? s.range(0, std::min(n - 1, 8)) : 0);
        late += at + 1 < int(run.size());
        const double stamp = run[at].t + s.real(-0.3, 0.3) * dt;
        auto fr = std::make_shared<Frame>(stamp);
        wm.AddNewFrame(fr);
        stamps.push_back(stamp);
        const bool key = s.chance(1, 2);
        wm.minKeyframeTrackedFeatureNum = key ? 1000 : 0;
        for (int i = 0; i < at; ++i) m.propagate(run[i], run[i + 1], g, Qn);
        run.erase(run.begin(), run.begin() + at);
        m.clone();
        PBT_CHECK(up.Update(stamp, 0.5 * dt), "image " << k << " is refused");
        // marginalise as the backend does
        const bool full = int(stamps.size()) > window;
        if (full) {
            const bool old = key || stamps.size() == 2;
            const int gone = old ? 0 : int(stamps.size()) - 2;
            m.drop(gone);
            stamps.erase(stamps.begin() + gone);
            PBT_CHECK(up.margPolicy == (old ? MARG_OLDEST : MARG_SUBNEW), "policy " << up.margPolicy << " with a full window");
            PBT_CHECK(wm.RemoveFrame(up.margPolicy == MARG_OLDEST ? 0 : std::uint32_t(wm.frames.size() - 2)), "frame not removed");
            ++dropped;
            (old ? oldest : sub)++;
        } else PBT_CHECK(up.margPolicy == NO_MARG, "policy " << up.margPolicy << " with a window that is not full");
        x.desc << " [image at " << stamp << " after " << n << " items, " << (full ? key ? "oldest" : "sub-newest" : "nothing") << " dropped]";
        PBT_CHECK(wm.frames.size() == stamps.size(), wm.frames.size() << " frames, expected " << stamps.size());
        for (std::size_t i = 0; i < stamps.size(); ++i) PBT_CHECK(wm.frames[i]->timeStamp == stamps[i], "frame " << i << " is the one of " << wm.frames[i]->timeStamp << ", expected " << stamps[i]);
        // the covariance at the image and at the newest item
        const VX sd = m.P.diagonal().cwiseSqrt();
        int r = 0, c = 0;
        MX P = held(pq, *pq.items.front());
        PBT_CHECK(P.rows() == m.dim(), "covariance of " << P.rows() << " for " << m.dim() << " states after image " << k);
        double df = covDiff(P, m.P, sd, &r, &c);
        PBT_CHECK(df < 5e-3, "after image " << k << " (" << dropped << " frames dropped) the covariance of " << where(r, cams) << " and " << where(c, cams) << " is " << P(r, c) << ", expected " << m.P(r, c));
        for (std::size_t i = 0; i < stamps.size(); ++i) {
            const double e = (d(wm.frames[i]->p_wb) - m.frames[i].p).norm() + angle(d(wm.frames[i]->q_wb), m.frames[i].q);
            PBT_CHECK(e < 2e-3, "after image " << k << " frame " << i << " is at " << str(d(wm.frames[i]->p_wb)) << ", expected " << str(m.frames[i].p));
        }
        Filter end = m;
        for (std::size_t i = 0; i + 1 < run.size(); ++i) end.propagate(run[i], run[i + 1], g, Qn);
        MX E = held(pq, *pq.items.back());
        PBT_CHECK(pq.items.size() == run.size() && E.rows() == end.dim(), "the queue after image " << k);
        df = covDiff(E, end.P, end.P.diagonal().cwiseSqrt(), &r, &c);
        PBT_CHECK(df < 5e-3, "at the newest inertial item after image " << k << " the covariance of " << where(r, cams) << " and " << where(c, cams) << " is " << E(r, c) << ", expected " << end.P(r, c));
    }
    x.label("oldest dropped", oldest > 0);
    x.label("sub-newest dropped", sub > 0);
    x.label("inertial items after the image", late > 0);
    x.nontrivial(dropped >= 2 && window > 1);
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C15",
            "history: 1 to 14 images without usable points over windows of 1 to 6 frames, 1 to 3 cameras and a random full covariance, the dropped frame varying, against a labelled double-precision covariance; "
            "non-trivial when at least two frames were dropped from a window of more than one",
            {"propagation as decided by C06 to C08"},
            {{"history", history, 8000, 200000}}};
}
