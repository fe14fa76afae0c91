// C25: through any history the uncertainty held is that of the filter, is a covariance, shrinks with every update and is honest.
#include "msckfref.hpp"
#include "sim.hpp"
#include <multi_view_vision_update.hpp>
#include <cstdlib>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
// the parts of the estimator, put together as it does, from a known start with a given uncertainty
struct Parts {
    FeatureManager fm;
    FrameManager wm;
    PropagateQueue pq;
    Trianglator tri;
    PnPSolver pnp;
    MultiViewVisionUpdate up;
    MX held(const IMUPropagateQueueItem &it) const {
        const int m = int(pq.exCamCov.rows());
        MX P(15 + m, 15 + m);
        if (it.imuExCamCov.cols() != m || pq.exCamCov.cols() != m) return MX();
        P.topLeftCorner(15, 15) = it.imuCov.cast<double>();
        P.topRightCorner(15, m) = it.imuExCamCov.cast<double>();
        P.bottomLeftCorner(m, 15) = it.imuExCamCov.cast<double>().transpose();
        P.bottomRightCorner(m, m) = pq.exCamCov.cast<double>();
        return P;
    }
    Parts(const sim::Config &c, const Filter &m, const Imu &first) {
        up.propagator = &pq; up.featureManager = &fm; up.frameManager = &wm; up.trianglator = &tri; up.pnpSolver = &pnp;
        up.measureNoise = float(c.sigma);
        up.maxUsedFeatures = std::uint32_t(c.maxFeatures);
        pq.propagator = &wm;
        wm.Initialize(c.window);
        wm.minKeyframeMeanParallax = 1e6f;
        wm.maxKeyframeTranslation = 1e6f;
        for (auto &e : m.ex) wm.extrinsics.emplace_back(f(e.q), f(e.p));
        pq.InitializeProcessNoiseMatrix(float(c.na), float(c.ng), float(c.nwa), float(c.nwg));
        pq.bias_a = f(m.ba); pq.bias_g = f(m.bg);
        pq.initState = IMUMotionState(f(m.imu.p), f(m.imu.v), f(m.imu.q));
        pq.Propagate(f(first.a), f(first.w), first.t);
        pq.items.front()->imuCov = f(m.P.topLeftCorner(15, 15));
        pq.items.front()->imuExCamCov = f(m.P.topRightCorner(15, m.dim() - 15));
        pq.exCamCov = f(m.P.bottomRightCorner(m.dim() - 15, m.dim() - 15));
    }
    void image(const FeaturesMessage &msg, double t) {
        auto fr = std::make_shared<Frame>(t);
        wm.AddNewFrame(fr);
        if (wm.frames.size() == 1) { fr->p_wb = pq.initState.p_wb; fr->q_wb = pq.initState.q_wb; }
        std::vector<std::shared_ptr<Feature>> seen;
        fm.AddNewFeatures(msg.ids, msg.observes, fr->id, seen);
        fr->AddFeatures(seen);
    }
    void drop() {
        if (up.margPolicy == MARG_OLDEST) { fm.RemoveByFrameID(wm.frames.front()->id, false); wm.RemoveFrame(0); }
        else if (up.margPolicy == MARG_SUBNEW) { fm.RemoveByFrameID(wm.frames.back()->id - 1, true); wm.RemoveFrame(std::uint32_t(wm.frames.size() - 2)); }
    }
};
std::string where(int i, int ex) {
    static const char *imu[] = {"position", "velocity", "attitude", "accelerometer bias", "gyroscope bias"};
    if (i < 15) return imu[i / 3];
    i -= 15;
    return i < 6 * ex ? "camera " + std::to_string(i / 6) : "frame " + std::to_string(i / 6 - ex);
}
MX scaled(const MX &P, const VX &sd) { return sd.cwiseInverse().asDiagonal() * P * sd.cwiseInverse().asDiagonal(); }
double smallest(const MX &P) { return Eigen::SelfAdjointEigenSolver<MX>(0.5 * (P + P.transpose()), Eigen::EigenvaluesOnly).eigenvalues()(0); }

struct Plan {                                                          // what is simulated and how uncertain the start is
    sim::Scenario c;
    double start;                                                      // time of the first image used
    int images, every;
    VX sd;
    std::vector<bool> key;
    bool thin;
    double fewer, gaps;
};
enum Form { HISTORY, EXTREME, HONEST };
Plan plan(pbt::Src &s, Form form) {
    const bool honest = form == HONEST;
    Plan p;
    p.c = sim::scenario(s, sim::EXACT, 1);
    auto &c = p.c;
    c.t0 = 0; c.imgShift = 0; c.firstImage = 0;
    c.cfg.imuHz = s.pick<double>({100, 200, 50});
    c.mot.still = -2; c.mot.ramp = 1;                                  // in full motion from the beginning
    c.imgEvery = s.range(2, 10);
    p.images = honest ? s.range(5, 10) : s.range(2, 16);
    c.duration = (p.images + 1) * c.imgEvery * c.period();
    c.landmarks = 500;
    c.near = 1.5; c.far = 5;
    c.perFrame = s.pick<int>({20, 12, 30});
    c.cfg.maxFeatures = 300;
    c.cfg.window = s.range(honest ? 2 : 1, 7);
    c.cfg.na = s.logReal(1e-4, 0.02); c.cfg.ng = s.logReal(1e-6, 1e-3); c.cfg.nwa = s.logReal(1e-6, 1e-2); c.cfg.nwg = s.logReal(1e-7, 1e-4);
    c.cfg.sigma = s.logReal(0.0005, honest ? 0.004 : 0.02);
    if (!honest && s.chance(1, 4)) c.cfg.ext.resize(1);
    if (form == EXTREME) { c.cfg.sigma = s.logReal(1e-4, 0.02); c.pixNoise = s.pick<double>({1, 10}); c.outliers = s.pick<double>({0, 0.1}); c.cfg.maxFeatures = s.pick<int>({300, 10, 3}); }
    const int cams = int(c.cfg.ext.size());
    p.sd.resize(15 + 6 * cams);
    p.sd.segment<3>(0).setConstant(s.logReal(0.003, 0.1)); p.sd.segment<3>(3).setConstant(s.logReal(0.01, 0.2)); p.sd.segment<3>(6).setConstant(s.logReal(0.001, 0.02));
    p.sd.segment<3>(9).setConstant(s.logReal(0.01, 0.1)); p.sd.segment<3>(12).setConstant(s.logReal(0.001, 0.02));
    for (int i = 0; i < cams; ++i) { p.sd.segment<3>(15 + 6 * i).setConstant(s.logReal(1e-4, 0.01)); p.sd.segment<3>(18 + 6 * i).setConstant(s.logReal(1e-4, 0.005)); }
    p.sd *= form == HONEST ? 0.3 : form == EXTREME ? s.pick<double>({1, 4, 2}) : 1;
    if (honest) {                                                      // where the filter's linearisation is good
        c.cfg.imuHz = 200;
        c.cfg.sigma = s.logReal(0.0005, 0.002);
        p.sd.segment<3>(0) *= 0.3; p.sd.segment<3>(3) *= 0.5; p.sd.segment<3>(6) *= 0.5;
    }
    for (int i = 0; i <= p.images; ++i) p.key.push_back(s.chance(1, 2));
    p.fewer = s.pick<double>({0, 0, 0.3}); p.gaps = s.pick<double>({0, 0, 0.1, 0.3});
    if (honest) p.fewer = 0;
    return p;
}
// a start that is off by as much as its uncertainty says, biases included
Filter startOf(const Plan &p, sim::Rng &g, V3 *ba, V3 *bg) {
    const auto &c = p.c;
    Filter m;
    m.imu = {c.mot.p(0), c.mot.v(0), c.mot.q(0)};
    m.ba = c.ba; m.bg = c.bg;
    for (auto &e : c.cfg.ext) m.ex.push_back({e.q, e.p});
    m.P = p.sd.cwiseAbs2().asDiagonal();
    VX dx(m.dim());
    for (int i = 0; i < dx.size(); ++i) dx(i) = p.sd(i) * g.n();
    *ba = m.ba; *bg = m.bg;
    m.apply(dx);
    m.clone();
    m.imu = {d(f(m.imu.p)), d(f(m.imu.v)), d(f(m.imu.q)).normalized()};
    m.frames[0] = {m.imu.q, m.imu.p};
    m.ba = d(f(m.ba)); m.bg = d(f(m.bg));
    for (auto &e : m.ex) e = {d(f(e.q)).normalized(), d(f(e.p))};
    m.P = m.P.cast<float>().cast<double>();
    return m;
}
// measurements of the motion with the configured noise, per measurement; biases walk
sim::Stream measured(const Plan &p, sim::Rng &g, V3 *ba, V3 *bg) {
    sim::Scenario c = p.c;
    c.seed = std::uint64_t(g.u() * 1e9);
    c.ba = c.bg = V3::Zero();
    c.pixNoise = c.cfg.sigma * std::max(1.0, c.pixNoise);
    auto st = sim::simulate(c);
    if (p.fewer + p.gaps > 0) sim::thin(st, p.fewer, p.gaps, c.seed);
    for (auto &m : st.imu) {
        m->accel += f(V3(*ba + std::sqrt(c.cfg.na) * g.n3()));
        m->gyro += f(V3(*bg + std::sqrt(c.cfg.ng) * g.n3()));
        *ba += std::sqrt(c.cfg.nwa) * c.period() * g.n3();
        *bg += std::sqrt(c.cfg.nwg) * c.period() * g.n3();
    }
    return st;
}
std::vector<Imu> samples(const sim::Stream &st, int from, int to) {
    std::vector<Imu> r;
    for (int i = from; i <= to; ++i) r.push_back({st.imu[i]->timeStamp, d(st.imu[i]->gyro), d(st.imu[i]->accel)});
    return r;
}
// tracks of the newest image and whether they triangulate, for the reference
struct Track { std::vector<Obs> obs; };
bool gather(const Filter &m, const std::vector<const FeaturesMessage *> &win, std::vector<Track> &use, std::vector<V3> &at) {
    const auto &now = *win.back();
    for (std::size_t i = 0; i < now.ids.size(); ++i) {
        Track t;
        for (std::size_t k = 0; k < win.size(); ++k) for (std::size_t j = 0; j < win[k]->ids.size(); ++j) if (win[k]->ids[j] == now.ids[i])
            for (auto &z : win[k]->observes[j]->norms) t.obs.push_back({int(k), int(z.first), d(z.second)});
        if (t.obs.size() < 2) continue;
        VX sv;
        const V3 pw = m.triangulate(t.obs, &sv);
        double far = 0, near = INFINITY;
        for (auto &o : t.obs) { const Cam c = m.camera(o); far = std::max(far, (pw - c.p).norm()); near = std::min(near, depth(c, pw)); }
        if (!(6e-8 * sv(0) / sv(2) * (1 + pw.squaredNorm()) * 5 < 5e-4 * far)) return false;
        if (near < -0.2) continue;
        if (near < 0.3) return false;
        use.push_back(t);
        at.push_back(pw);
    }
    return true;
}
double covDiff(const MX &a, const MX &b, const VX &sd, int *row, int *col) {
    double m = 0;
    for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) {
        double v = std::fabs(a(i, j) - b(i, j)) / (sd(i) * sd(j));
        if (!(v <= m)) { m = std::isfinite(v) ? v : 1e9; *row = i; *col = j; }
    }
    return m;
}

void run(pbt::Src &s, pbt::Ctx &x, Form form) {
    const Plan p = plan(s, form);
    const auto &c = p.c;
    sim::describe(x, c, sim::NOISE);
    IMUFullState::SetGravityNorm(float(c.cfg.gravity));
    const V3 g = d(IMUFullState::gravity_w);
    MX Qn = MX::Zero(12, 12);
    Qn.diagonal() << V3::Constant(float(c.cfg.na)), V3::Constant(float(c.cfg.ng)), V3::Constant(float(c.cfg.nwa)), V3::Constant(float(c.cfg.nwg));
    sim::Rng rng{c.seed};
    V3 ba, bg;
    Filter m = startOf(p, rng, &ba, &bg);
    const auto st = measured(p, rng, &ba, &bg);
    const int cams = int(m.ex.size());
    x.desc << "start uncertain by " << p.sd.segment<15>(0).transpose() << ", noise " << c.cfg.na << " " << c.cfg.ng << " " << c.cfg.nwa << " " << c.cfg.nwg << " " << c.cfg.sigma << "; key frames";
    for (bool k : p.key) x.desc << " " << k;
    std::srand(1);
    Parts b(c.cfg, m, samples(st, 0, 0)[0]);
    b.image(*st.img[0], 0);
    std::vector<const FeaturesMessage *> win{st.img[0].get()};
    int points = 0, drops = 0, updates = 0;
    for (int k = 1; k <= p.images; ++k) {
        // the image belongs to the last measurement or one before it
        const int at = k * c.imgEvery, from = at - c.imgEvery;
        for (auto &i : samples(st, from + 1, at)) PBT_CHECK(b.pq.Propagate(f(i.a), f(i.w), i.t), "propagation fails");
        const auto run = samples(st, from, at);
        for (std::size_t i = 0; i + 1 < run.size(); ++i) m.propagate(run[i], run[i + 1], g, Qn);
        win.push_back(st.img[k].get());
        b.image(*st.img[k], run.back().t);
        b.wm.minKeyframeTrackedFeatureNum = p.key[k] ? 1000 : 0;
        std::vector<Track> use;
        std::vector<V3> pts;
        if (form == EXTREME) points += int(st.img[k]->ids.size()), ++updates;
        else if (!gather(m, win, use, pts)) { x.label("ended at an unclear point"); break; }
        const Filter before = m;
        if (!use.empty()) {
            std::vector<MX> Hs;
            std::vector<VX> rs;
            for (std::size_t i = 0; i < use.size(); ++i) m.project(use[i].obs, pts[i], Hs, rs);
            m.update(Hs, rs, double(float(c.cfg.sigma)));
            ++updates;
        }
        points += int(use.size());
        Filter own = before;                           // own: what the estimator itself held before
        own.P = b.held(*b.pq.items.back());
        PBT_CHECK(own.P.rows() == m.dim(), "before image " << k << " a covariance of " << own.P.rows() << " is held, expected " << m.dim());
        m.clone(); own.clone();
        const bool full = int(win.size()) > c.cfg.window, old = p.key[k] || win.size() == 2;
        if (full) {
            const int gone = old ? 0 : int(win.size()) - 2;
            m.drop(gone); own.drop(gone);
            win.erase(win.begin() + gone);
            ++drops;
        }
        PBT_CHECK(b.up.Update(run.back().t, 0.5 * c.period()), "the update of image " << k << " fails");
        b.drop();
        const MX P = b.held(*b.pq.items.front());
        PBT_CHECK(P.rows() == m.dim() && b.wm.frames.size() == m.frames.size(), "after image " << k << " there are " << b.wm.frames.size() << " frames in the window and a covariance of " << P.rows() << ", expected " << m.frames.size() << " and " << m.dim());
        if (form == EXTREME && !(b.pq.items.front()->nominalState.p_wb.norm() + b.pq.items.front()->nominalState.v_wb.norm() < 1e3f)) { x.label("ended far out"); break; }
        const VX sd = own.P.diagonal().cwiseSqrt();
        // in standard deviations, or what single precision leaves of a state where that is more
        const double fp = 1e-4 * (1 + m.imu.p.norm()), fv = 2e-4, fq = 2e-5, fb = 2e-4;
        int r = 0, q = 0;
        const double apart = covDiff(P, m.P, sd, &r, &q);
        const MX N = scaled(P, sd), N0 = scaled(own.P, sd);
        const double asym = (N - N.transpose()).cwiseAbs().maxCoeff(), least = smallest(N), grows = -smallest(N0 - N);
        double off = 0;
        std::string what;
        auto note = [&](double v, const std::string &n) { if (!(v <= off)) { off = std::isfinite(v) ? v : 1e9; what = n; } };
        auto &it = *b.pq.items.front();
        auto vec3 = [&](const Vector3 &a, const V3 &e, double u, double floor, const std::string &n) { note((d(a) - e).norm() / std::hypot(u, floor), n); };
        auto turn = [&](const Quaternion &a, const Q &e, double u, const std::string &n) { note(angle(d(a), e) / std::hypot(u, fq), n); };
        vec3(it.nominalState.p_wb, m.imu.p, sd(0), fp, "position");
        vec3(it.nominalState.v_wb, m.imu.v, sd(3), fv, "velocity");
        turn(it.nominalState.q_wb, m.imu.q, sd(6), "attitude");
        vec3(b.pq.bias_a, m.ba, sd(9), fb, "accelerometer bias");
        vec3(b.pq.bias_g, m.bg, sd(12), fb, "gyroscope bias");
        for (int i = 0; i < cams; ++i) {
            vec3(b.wm.extrinsics[i].p_bc, m.ex[i].p, sd(15 + 6 * i), fp, "position of camera " + std::to_string(i));
            turn(b.wm.extrinsics[i].q_bc, m.ex[i].q, sd(18 + 6 * i), "attitude of camera " + std::to_string(i));
        }
        for (std::size_t i = 0; i < m.frames.size(); ++i) {
            vec3(b.wm.frames[i]->p_wb, m.frames[i].p, sd(m.frameCol(int(i))), fp, "position of frame " + std::to_string(i));
            turn(b.wm.frames[i]->q_wb, m.frames[i].q, sd(m.frameCol(int(i)) + 3), "attitude of frame " + std::to_string(i));
        }
        // rounding: up to 2e-6 wherever the state stays near the scene
        const double tiny = form == EXTREME ? 1e-3 : 1e-5;
        PBT_CHECK(asym < tiny, "after image " << k << " the covariance differs from its transpose by " << asym << " of the variances");
        PBT_CHECK(least > -3 * tiny, "after image " << k << " the covariance has a negative direction, " << least << " of the variances before");
        PBT_CHECK(grows < tiny, "the update of image " << k << " makes a direction more uncertain by " << grows << " of the variances before");
        if (form == EXTREME || c.cfg.sigma < 0.0015) continue;            // there rounding is magnified from image to image
        PBT_CHECK(apart < 2e-2, "after image " << k << " the covariance of " << where(r, cams) << " and " << where(q, cams) << " is " << P(r, q) << ", expected " << m.P(r, q));
        PBT_CHECK(off < 0.1, "after image " << k << " the " << what << " differs from the filter by " << off << " standard deviations");
    }
    x.label("frames dropped", drops > 0);
    x.label("one camera", cams == 1);
    x.label("images without points", updates < p.images);
    x.nontrivial(points > 20 && updates > 1);
}

void history(pbt::Src &s, pbt::Ctx &x) { run(s, x, HISTORY); }
void extreme(pbt::Src &s, pbt::Ctx &x) { run(s, x, EXTREME); }

// errors are of the size the covariance says, over many runs of the same plan (somewhat larger: the tracks of the window are
// used again at every image)
void honest(pbt::Src &s, pbt::Ctx &x) {
    const Plan p = plan(s, HONEST);
    const auto &c = p.c;
    sim::describe(x, c, sim::NOISE);
    IMUFullState::SetGravityNorm(float(c.cfg.gravity));
    x.desc << "start uncertain by " << p.sd.segment<15>(0).transpose() << ", noise " << c.cfg.na << " " << c.cfg.ng << " " << c.cfg.nwa << " " << c.cfg.nwg << " " << c.cfg.sigma << "; ";
    std::srand(1);
    const int runs = 40;
    double nees = 0, gain = 0;
    std::vector<double> part(5, 0.0);
    for (int n = 0; n < runs; ++n) {
        sim::Rng rng{c.seed + 1000003ull * n};
        V3 ba, bg;
        Filter m = startOf(p, rng, &ba, &bg);
        const auto st = measured(p, rng, &ba, &bg);
        Parts b(c.cfg, m, samples(st, 0, 0)[0]);
        b.image(*st.img[0], 0);
        for (int k = 1; k <= p.images; ++k) {
            const int at = k * c.imgEvery;
            for (auto &i : samples(st, at - c.imgEvery + 1, at)) b.pq.Propagate(f(i.a), f(i.w), i.t);
            b.image(*st.img[k], st.imu[at]->timeStamp);
            b.wm.minKeyframeTrackedFeatureNum = p.key[k] ? 1000 : 0;
            PBT_CHECK(b.up.Update(st.imu[at]->timeStamp, 0.5 * c.period()), "the update of image " << k << " fails");
            b.drop();
        }
        const double t = p.images * c.imgEvery * c.period();
        auto &it = *b.pq.items.front();
        Eigen::Matrix<double, 15, 1> e;
        // the biases are those of the end of the stream, one image interval later
        e << c.mot.p(t) - d(it.nominalState.p_wb), c.mot.v(t) - d(it.nominalState.v_wb), logq(d(it.nominalState.q_wb).normalized().conjugate() * c.mot.q(t)), ba - d(b.pq.bias_a), bg - d(b.pq.bias_g);
        MX P = b.held(it).topLeftCorner(15, 15);
        P.diagonal().segment<3>(9).array() += c.cfg.nwa * c.period() * c.period() * (c.imgEvery + 1);
        P.diagonal().segment<3>(12).array() += c.cfg.nwg * c.period() * c.period() * (c.imgEvery + 1);
        nees += e.dot(P.ldlt().solve(e)) / 15 / runs;
        for (int k = 0; k < 5; ++k) part[k] += e.segment<3>(3 * k).dot(M3(P.block<3, 3>(3 * k, 3 * k)).inverse() * e.segment<3>(3 * k)) / 3 / runs;
        gain += std::sqrt(P(3, 3)) / p.sd(3) / runs;
    }
    x.desc << "errors squared are " << nees << " of the variances (position, velocity, attitude, biases:";
    for (double v : part) x.desc << " " << v;
    x.desc << ")";
    PBT_CHECK(nees > 0.5 && nees < 5, "over " << runs << " runs the squared errors are " << nees << " of what the covariance says");
    x.label("velocity learnt", gain < 0.5);
    x.nontrivial();
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C25",
            "history: simulated noisy streams from an uncertain start over 2 to 16 images, windows of 1 to 7 frames, 1 to 3 uncertain cameras, tracks interrupted or missed by cameras, the joint covariance after every image against a double-precision filter; "
            "non-trivial with more than twenty points in more than one update; extreme: uncertainties far above the noise (down to none), gross errors, any limit, the covariance as such; honest: errors of forty noisy runs against their covariance",
            {"covariances are compared with the reference where all tracks are used and the vision noise is not far below the uncertainty"},
            {{"history", history, 1500, 40000}, {"extreme", extreme, 1500, 40000}, {"honest", honest, 60, 1500}}};
}
