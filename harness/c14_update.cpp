// C14: a vision update is the extended Kalman filter update of the whole window with the null-space projected observations.
#include "msckfref.hpp"
#include <multi_view_vision_update.hpp>
#include <cstdlib>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
constexpr double TOLS = 2e-2, TOLC = 1e-3;
// seeds of std::srand for which two of the first numbers of std::rand (the first and second; second and third; second
// and fifth) are the same as float
const std::vector<unsigned> sameScores{15442150u, 24963338u, 323098u, 64215u};
struct Track { uint32_t id; std::vector<Obs> obs; bool current = false; };
struct World {
    FeatureManager fm;
    FrameManager wm;
    PropagateQueue pq;
    Trianglator tri;
    PnPSolver pnp;
    MultiViewVisionUpdate up;
    Filter f;                         // the state the library holds, in double precision
    std::vector<Imu> imu;             // from the image on
    std::vector<Track> tracks;
    double sigma, period = 0.005, stamp;
    MX Qn;
    bool full, key;
};

// whether a track is usable: -1 undecided, 0 no (refused by triangulation), 1 yes
int usable(const Filter &f, const Track &t, V3 *pw) {
    if (t.obs.size() < 2) return 0;
    VX sv;
    *pw = f.triangulate(t.obs, &sv);
    double far = 0, near = INFINITY;
    for (auto &o : t.obs) { Cam c = f.camera(o); far = std::max(far, (*pw - c.p).norm()); near = std::min(near, depth(c, *pw)); }
    if (!(6e-8 * sv(0) / sv(2) * (1 + pw->squaredNorm()) * 5 < 3e-4 * far)) return -1;
    if (near < -0.2) return 0;
    return near > 0.5 ? 1 : -1;
}

void build(pbt::Src &s, World &w, int frames, int cams, int maxTracks, double awkward, int minTracks = 0) {
    w.sigma = s.logReal(0.002, 0.03);
    const double dist = s.real(3, 8);
    const V3 centre = vec(s, s.pick<double>({0.0, 0.0, 4})), target = centre + dir(s) * dist;
    const double spread = dist * s.pick<double>({0.12, 0.2, 0.3});
    // nominal state
    Q qbc = rot(s);
    V3 pbc = vec(s, 0.2);
    for (int i = 0; i < cams; ++i) w.f.ex.push_back(rounded({i ? qbc * expq(vec(s, 0.1)) : qbc, i ? V3(pbc + dir(s) * 0.3) : pbc}));
    for (int i = 0; i < frames; ++i) {
        Cam c = lookingAt(s, centre, spread, target, 0.15);
        Cam b;
        b.q = (c.q * w.f.ex[0].q.conjugate()).normalized();
        b.p = c.p - b.q * w.f.ex[0].p;
        b = rounded(b);
        if (i + 1 < frames) w.f.frames.push_back(b);
        else w.f.imu = {b.p, d(f(vec(s, 2))), b.q};
    }
    w.f.ba = d(f(vec(s, 0.2)));
    w.f.bg = d(f(vec(s, 0.05)));
    VX sig(w.f.dim());
    const double sp = s.logReal(0.01, 0.1), sq = s.logReal(0.003, 0.03), se = s.pick<double>({0.0, 0.003, 0.01});
    sig.segment<3>(0).setConstant(sp); sig.segment<3>(3).setConstant(s.logReal(0.02, 0.3)); sig.segment<3>(6).setConstant(sq);
    sig.segment<3>(9).setConstant(s.logReal(0.01, 0.1)); sig.segment<3>(12).setConstant(s.logReal(0.001, 0.02));
    for (int i = 0; i < cams; ++i) { sig.segment<3>(15 + 6 * i).setConstant(se + 1e-4); sig.segment<3>(18 + 6 * i).setConstant(se / 2 + 1e-4); }
    for (int i = 0; i + 1 < frames; ++i) { sig.segment<3>(w.f.frameCol(i)).setConstant(sp); sig.segment<3>(w.f.frameCol(i) + 3).setConstant(sq); }
    MX L = randomRoot(s, sig);
    MX P = L * L.transpose();
    w.f.P = P.cast<float>().cast<double>();
    w.f.P = (0.5 * (w.f.P + w.f.P.transpose())).eval();
    VX z(w.f.dim());
    for (int i = 0; i < z.size(); ++i) z(i) = s.gauss();
    Filter truth = w.f;
    truth.apply(L * z * s.pick<double>({0.0, 0.5, 1}));
    // tracks
    const int n = s.range(minTracks, maxTracks);
    for (int k = 0; k < n; ++k) {
        Track t;
        t.id = uint32_t(100 + 7 * k);
        const V3 pw = target + vec(s, 0.25 * dist);
        const int last = s.chance(1, 6) && frames > 1 ? s.range(0, frames - 2) : frames - 1;
        const int first = s.range(0, last);
        t.current = last == frames - 1;
        const bool bad = s.unit() < awkward;
        for (int i = first; i <= last; ++i) {
            unsigned mask = s.range(1, (1 << cams) - 1);
            for (int c = 0; c < cams; ++c) if (mask >> c & 1) {
                Obs o{i, c, V2::Zero()};
                Cam k2 = truth.camera(o);
                // an awkward track shows a point behind the cameras
                V2 zz = project(k2, pw) + w.sigma * V2(s.gauss(), s.gauss()) * s.pick<double>({0, 1});
                if (bad) zz = project(k2, V3(2 * centre - pw)) + w.sigma * V2(s.gauss(), s.gauss());
                o.z = d(f(zz));
                t.obs.push_back(o);
            }
        }
        V3 at;
        if (minTracks && usable(w.f, t, &at) < 0) continue;        // among many tracks one would be undecided nearly always
        w.tracks.push_back(t);
    }
    // into the library, frame by frame as the backend does
    w.full = s.chance(2, 3);
    w.key = s.chance(1, 2) || frames == 2;                          // the oldest frame is always a key frame
    w.wm.Initialize(w.full ? frames - 1 : frames + s.range(0, 3));
    w.wm.minKeyframeTrackedFeatureNum = w.key ? 1000 : 0;
    w.wm.minKeyframeMeanParallax = 1e6f;
    w.wm.maxKeyframeTranslation = 1e6f;
    for (auto &e : w.f.ex) w.wm.extrinsics.emplace_back(f(e.q), f(e.p));
    for (int i = 0; i < frames; ++i) {
        auto fr = std::make_shared<Frame>(10 + 0.1 * i);
        w.wm.AddNewFrame(fr);
        if (i + 1 < frames) { fr->q_wb = f(w.f.frames[i].q); fr->p_wb = f(w.f.frames[i].p); }
        else { fr->q_wb = f(rot(s)); fr->p_wb = f(vec(s, 10)); }                        // replaced by the update
        std::vector<uint32_t> ids;
        std::vector<std::shared_ptr<FeatureObserve>> obs;
        for (auto &t : w.tracks) {
            std::unordered_map<uint32_t, Vector2> norms;
            for (auto &o : t.obs) if (o.frame == i) norms[uint32_t(o.cam)] = f(o.z);
            if (norms.empty()) continue;
            ids.push_back(t.id);
            obs.push_back(std::make_shared<FeatureObserve>(norms));
        }
        std::vector<std::shared_ptr<Feature>> changed;
        w.fm.AddNewFeatures(ids, obs, fr->id, changed);
        fr->AddFeatures(changed);
    }
    // inertial queue: stale items, the item of the image, later items
    w.stamp = 10 + 0.1 * (frames - 1);
    w.Qn = MX::Zero(12, 12);
    const double na = s.logReal(1e-3, 0.1), ng = s.logReal(1e-4, 0.01), wa = s.logReal(1e-4, 0.01), wg = s.logReal(1e-5, 1e-3);
    w.Qn.diagonal() << V3::Constant(float(na)), V3::Constant(float(ng)), V3::Constant(float(wa)), V3::Constant(float(wg));
    w.pq.propagator = &w.wm;
    w.pq.InitializeProcessNoiseMatrix(float(na), float(ng), float(wa), float(wg));
    w.pq.bias_a = f(w.f.ba);
    w.pq.bias_g = f(w.f.bg);
    const int stale = s.range(0, 5), later = s.range(0, 20);
    const double shift = s.real(-0.4, 0.4) * w.period;
    for (int i = -stale; i <= later; ++i) {
        auto it = std::make_shared<IMUPropagateQueueItem>();
        Imu m{w.stamp + shift + i * w.period, d(f(vec(s, 1))), d(f(V3(vec(s, 2) + V3(0, 0, 9.8))))};
        it->timeStamp = m.t; it->gyro = f(m.w); it->accel = f(m.a);
        it->imuCov.setIdentity();
        it->imuExCamCov.setZero(15, w.f.dim() - 15);
        it->nominalState = IMUMotionState(f(vec(s, 5)), f(vec(s, 1)), f(rot(s)));
        if (i == 0) {
            it->nominalState = IMUMotionState(f(w.f.imu.p), f(w.f.imu.v), f(w.f.imu.q));
            it->imuCov = f(w.f.P.topLeftCorner(15, 15));
            it->imuExCamCov = f(w.f.P.topRightCorner(15, w.f.dim() - 15));
        }
        w.pq.items.push_back(it);
        if (i >= 0) w.imu.push_back(m);
    }
    w.pq.exCamCov = f(w.f.P.bottomRightCorner(w.f.dim() - 15, w.f.dim() - 15));
    w.up.propagator = &w.pq; w.up.featureManager = &w.fm; w.up.frameManager = &w.wm; w.up.trianglator = &w.tri; w.up.pnpSolver = &w.pnp;
    w.up.measureNoise = float(w.sigma);
    w.sigma = double(float(w.sigma));
}
void describe(pbt::Ctx &x, const World &w) {
    x.desc << w.f.frames.size() + 1 << " frames, " << w.f.ex.size() << " cameras, noise " << w.sigma << ", " << (w.full ? "full" : "not full") << (w.key ? ", key frame" : "") << ", imu p " << str(w.f.imu.p) << " q " << str(w.f.imu.q)
           << ", limit " << w.up.maxUsedFeatures << "; tracks:";
    for (auto &t : w.tracks) { x.desc << " [" << t.id << ":"; for (auto &o : t.obs) x.desc << " f" << o.frame << "c" << o.cam << " " << o.z.x() << "," << o.z.y(); x.desc << "]"; }
}
MX held(const PropagateQueue &q, const IMUPropagateQueueItem &it) {
    const int m = int(q.exCamCov.rows());
    MX P(15 + m, 15 + m);
    P.topLeftCorner(15, 15) = it.imuCov.cast<double>();
    P.topRightCorner(15, m) = it.imuExCamCov.cast<double>();
    P.bottomLeftCorner(m, 15) = it.imuExCamCov.cast<double>().transpose();
    P.bottomRightCorner(m, m) = q.exCamCov.cast<double>();
    return P;
}
struct Diff { double state = 0, cov = 0; std::string what; };
// largest differences, in units of the standard deviations before the update
void note(Diff &r, double v, const std::string &n) { if (!(v <= r.state)) { r.state = std::isfinite(v) ? v : 1e9; r.what = n; } }
Diff compare(const World &w, const Filter &ref, const VX &sd) {
    Diff r;
    auto &it = *w.pq.items.front();
    auto vec3 = [&](const V3 &a, const V3 &b, double s, const std::string &n) { note(r, (a - b).norm() / s, n); };
    vec3(d(it.nominalState.p_wb), ref.imu.p, sd(0), "imu position");
    vec3(d(it.nominalState.v_wb), ref.imu.v, sd(3), "imu velocity");
    note(r, angle(d(it.nominalState.q_wb), ref.imu.q) / sd(6), "imu attitude");
    vec3(d(w.pq.bias_a), ref.ba, sd(9), "accelerometer bias");
    vec3(d(w.pq.bias_g), ref.bg, sd(12), "gyroscope bias");
    for (std::size_t i = 0; i < ref.ex.size(); ++i) {
        vec3(d(w.wm.extrinsics[i].p_bc), ref.ex[i].p, sd(15 + 6 * i), "position of camera " + std::to_string(i));
        note(r, angle(d(w.wm.extrinsics[i].q_bc), ref.ex[i].q) / sd(18 + 6 * i), "attitude of camera " + std::to_string(i));
    }
    for (std::size_t i = 0; i < w.wm.frames.size(); ++i) {
        const Cam b = ref.body(int(i));
        const bool last = i + 1 == w.wm.frames.size();
        vec3(d(w.wm.frames[i]->p_wb), b.p, last ? sd(0) : sd(ref.frameCol(int(i))), "position of frame " + std::to_string(i));
        note(r, angle(d(w.wm.frames[i]->q_wb), b.q) / (last ? sd(6) : sd(ref.frameCol(int(i)) + 3)), "attitude of frame " + std::to_string(i));
    }
    vec3(d(w.wm.frames.back()->v_wb), ref.imu.v, sd(3), "velocity of the newest frame");
    return r;
}
double covDiff(const MX &a, const MX &b, const VX &sd) {
    if (a.rows() != b.rows()) return INFINITY;
    double m = 0;
    for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) { double v = std::fabs(a(i, j) - b(i, j)) / (sd(i) * sd(j)); if (!(v <= m)) m = std::isfinite(v) ? v : 1e9; }
    return m;
}
VX deviations(const Filter &f) { return f.P.diagonal().cwiseSqrt(); }
// reference: update with these tracks, then clone and marginalise; the standard deviations follow
Filter expected(const World &w, const std::vector<std::pair<const Track *, V3>> &use, Filter *updated, VX *sdOut) {
    Filter f = w.f;
    VX sd = deviations(f);
    if (!use.empty()) {
        std::vector<MX> Hs;
        std::vector<VX> rs;
        for (auto &u : use) f.project(u.first->obs, u.second, Hs, rs);
        f.update(Hs, rs, w.sigma);
    }
    *updated = f;
    Filter g = f;
    Filter s2 = w.f;                                            // standard deviations of the same states
    g.clone();
    s2.clone();
    if (w.full) { int i = w.key ? 0 : int(g.frames.size()) - 2; g.drop(i); s2.drop(i); }
    *sdOut = deviations(s2);
    return g;
}

void kalman(pbt::Src &s, pbt::Ctx &x, int frames, int cams, int minTracks, int maxTracks) {
    World w;
    build(s, w, frames, cams, maxTracks, s.pick<double>({0, 0.2}), minTracks);
    w.up.maxUsedFeatures = uint32_t(w.tracks.size() + s.range(0, 5));
    describe(x, w);
    std::vector<std::pair<const Track *, V3>> use;
    bool refused = false, lost = false;
    for (auto &t : w.tracks) {
        lost = lost || !t.current;
        if (!t.current) continue;
        V3 pw;
        int u = usable(w.f, t, &pw);
        if (u < 0) throw pbt::Discard{};
        if (u) use.push_back({&t, pw});
        else refused = true;
    }
    const VX sd = deviations(w.f);
    Filter updated;
    VX sdAfter;
    Filter after = expected(w, use, &updated, &sdAfter);
    // a rare seed (see `sameScores`) is one on which two points draw scores that no float tells apart
    const unsigned seed = s.chance(1, 8) ? s.pick(sameScores) : unsigned(s.choice(1000));
    std::srand(seed);
    x.desc << "srand " << seed << "; ";
    PBT_CHECK(w.up.Update(w.stamp, 0.5 * w.period), "the update fails");
    PBT_CHECK(w.up.margPolicy == (w.full ? w.key ? MARG_OLDEST : MARG_SUBNEW : NO_MARG), "policy " << w.up.margPolicy);
    PBT_CHECK(w.pq.items.size() == w.imu.size(), w.pq.items.size() << " inertial items kept, " << w.imu.size() << " are not older than the image");
    Diff df = compare(w, updated, sd);
    PBT_CHECK(df.state < TOLS, df.what << " differs from the Kalman update by " << df.state << " prior standard deviations, with " << use.size() << " points used");
    MX P = held(w.pq, *w.pq.items.front());
    double cd = covDiff(P, after.P, sdAfter);
    if (const char *d = getenv("VT_DUMP")) { FILE *f = fopen(d, "a"); fprintf(f, "fr %d cams %d use %d s %g c %.9f\n", frames, cams, int(use.size()), df.state, cd); fclose(f); }
    PBT_CHECK(P.rows() == after.P.rows(), "covariance of " << P.rows() << " for " << after.P.rows() << " states");
    PBT_CHECK(cd < TOLC, "the covariance differs from that of the Kalman update by " << cd << " of the prior one, with " << use.size() << " points used");
    for (auto &u : use) {
        auto &ft = *w.fm.features.at(u.first->id);
        PBT_CHECK(ft.status == Feature::SOLVED && (d(ft.p_w) - u.second).norm() < 1e-3 * (1 + u.second.norm()), "point " << ft.id << " is at " << str(d(ft.p_w)) << ", its observations say " << str(u.second));
    }
    for (auto &t : w.tracks) {
        V3 pw;
        if (t.current && usable(w.f, t, &pw) == 0) PBT_CHECK(w.fm.features.at(t.id)->status != Feature::SOLVED, "point " << t.id << " cannot be triangulated, yet counts as solved");
    }
    // the later inertial items follow from the updated state
    Filter run = after;
    double scale = 1;
    for (std::size_t i = 1; i < w.imu.size(); ++i) {
        run.imu = nav(w.pq.items[i - 1]->nominalState);
        run.ba = d(w.pq.bias_a); run.bg = d(w.pq.bias_g);
        run.P = held(w.pq, *w.pq.items[i - 1]);
        run.propagate(w.imu[i - 1], w.imu[i], d(IMUFullState::gravity_w), w.Qn);
        const Nav got = nav(w.pq.items[i]->nominalState);
        PBT_CHECK((got.p - run.imu.p).norm() + (got.v - run.imu.v).norm() + angle(got.q, run.imu.q) < 1e-4, "inertial item " << i << " after the image does not follow from the one before: p " << str(got.p) << " instead of " << str(run.imu.p));
        const MX C = held(w.pq, *w.pq.items[i]);
        const double c2 = covDiff(C, run.P, deviations(run) * scale);
        PBT_CHECK(c2 < 2e-2, "the covariance of inertial item " << i << " after the image does not follow from the one before: " << c2);
    }
    x.label("no usable point", use.empty());
    x.label("refused points", refused);
    x.label("tracks that ended", lost);
    x.label("compressed", 0);
    x.label("oldest goes", w.full && w.key);
    x.label("sub-newest goes", w.full && !w.key);
    x.nontrivial(!use.empty());
}

void ekf(pbt::Src &s, pbt::Ctx &x) { const int frames = s.range(2, 7), cams = s.range(1, 3); kalman(s, x, frames, cams, 0, s.chance(1, 3) ? 30 : 8); }
// more of everything than the usual window has
void crowd(pbt::Src &s, pbt::Ctx &x) {
    const int kind = s.range(0, 2);
    if (kind == 0) kalman(s, x, s.range(2, 7), s.range(1, 2), 100, 320);
    else if (kind == 1) kalman(s, x, s.range(8, 24), s.range(1, 2), 1, 20);
    else kalman(s, x, s.range(2, 5), s.range(4, 7), 1, 12);
    x.label("many tracks", kind == 0);
    x.label("many frames", kind == 1);
    x.label("many cameras", kind == 2);
}

// only as many points as allowed are used, any of them
void limit(pbt::Src &s, pbt::Ctx &x) {
    World w;
    build(s, w, s.range(2, 5), s.range(1, 2), 6, 0);
    std::vector<std::pair<const Track *, V3>> use;
    for (auto &t : w.tracks) {
        if (!t.current) continue;
        V3 pw;
        int u = usable(w.f, t, &pw);
        if (u < 0) throw pbt::Discard{};
        if (u) use.push_back({&t, pw});
    }
    const int n = int(use.size());
    if (n < 1) throw pbt::Discard{};
    const int lim = s.range(0, n - 1);
    w.up.maxUsedFeatures = uint32_t(lim);
    describe(x, w);
    std::srand(unsigned(s.choice(1000)));
    PBT_CHECK(w.up.Update(w.stamp, 0.5 * w.period), "the update fails");
    const VX sd = deviations(w.f);
    double best = INFINITY;
    std::string what;
    for (int m = 0; m < (1 << n); ++m) {
        if (__builtin_popcount(m) != lim) continue;
        std::vector<std::pair<const Track *, V3>> sub;
        for (int i = 0; i < n; ++i) if (m >> i & 1) sub.push_back(use[i]);
        Filter updated;
        VX sdAfter;
        Filter after = expected(w, sub, &updated, &sdAfter);
        Diff df = compare(w, updated, sd);
        double v = std::max(df.state / TOLS, covDiff(held(w.pq, *w.pq.items.front()), after.P, sdAfter) / TOLC);
        if (v < best) { best = v; what = df.what; }
    }
    PBT_CHECK(best < 1, "with " << n << " usable points and a limit of " << lim << " the result is not that of any " << lim << " of them; the closest still differs by " << best * TOLS << " (" << what << ")");
    x.label("none allowed", lim == 0);
    x.nontrivial(lim > 0);
}

// updates that cannot be done are refused
void refuses(pbt::Src &s, pbt::Ctx &x) {
    World w;
    build(s, w, s.range(2, 4), s.range(1, 2), 5, 0);
    const int kind = s.range(0, 3);
    double stamp = w.stamp;
    if (kind == 0) w.pq.items.clear();
    if (kind == 1) stamp = w.imu.back().t + 0.5 * w.period + s.real(0.001, 100);                         // no inertial data that new
    if (kind == 2) for (auto &i : w.pq.items) i->imuExCamCov.setZero(15, i->imuExCamCov.cols() + (s.chance(1, 2) ? 6 : -6));   // a window that does not fit
    if (kind == 3) w.up.frameManager = nullptr;
    x.desc << "kind " << kind << ", image at " << stamp << ", last inertial item " << w.imu.back().t;
    PBT_CHECK(!w.up.Update(stamp, 0.5 * w.period), "an impossible update succeeds");
    x.nontrivial();
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C14",
            "ekf: windows of 2 to 7 frames, 1 to 3 cameras with uncertain mounting, up to 30 tracks (some ended, some behind the cameras, some seen once), random full covariances, against a double-precision "
            "filter (SVD null space, Joseph form); non-trivial when points are used; crowd: the same with up to 320 tracks, 24 frames or 7 cameras; limit: against every subset of the allowed size; refuses: updates that cannot be done",
            {"every track is clearly triangulable or clearly not", "camera IDs are below the number of cameras"},
            {{"ekf", ekf, 20000, 400000}, {"crowd", crowd, 600, 12000}, {"limit", limit, 10000, 200000}, {"refuses", refuses, 5000, 50000}}};
}
