// C03: the configuration directory is read faithfully; absent or malformed files leave the value in force; never a crash.
// variant: san
// fuzz: 120
#include "whole.hpp"
#include <backend.hpp>
#include <config.hpp>
#include <cstdlib>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
std::string scratch() {
    static std::string dir;
    static pid_t owner = 0;
    if (owner != getpid()) {
        const char *base = getenv("VT_SCRATCH");
        dir = std::string(base ? base : "/tmp") + "/cfg" + std::to_string(getpid());
        mkdir(dir.c_str(), 0700);
        owner = getpid();
    }
    return dir;
}
void wipe(const std::string &dir, const std::vector<std::string> &names) {
    for (auto &n : names) ::remove((dir + "/" + n).c_str());
}
enum Kind { OK, MISSING, BAD };

// writes a file for a rows x cols matrix; OK: the values are readable from it
Kind emit(pbt::Src &s, pbt::Ctx &x, const std::string &path, const std::string &name, const Matrix &m, bool allowBad = true) {
    int k = s.range(0, 19);
    if (k >= 17 && allowBad) { x.desc << name << " missing; "; return MISSING; }
    std::ofstream o(path + "/" + name, std::ios::binary);
    const int rows = int(m.rows()), cols = int(m.cols());
    int bad = (k >= 12 && allowBad) ? s.range(1, 7) : 0;
    if (bad == 1 && rows == 1) bad = 3;
    const std::string sep = s.pick<std::string>({" ", "\t", "   "}), eol = s.pick<std::string>({"\n", "\n", "\r\n"});
    const int extraCols = s.chance(1, 6) ? s.range(1, 3) : 0, extraRows = s.chance(1, 6) ? s.range(1, 40) : 0;
    const bool lastEol = s.chance(3, 4);
    const int at = s.range(0, rows - 1), atc = s.range(0, cols - 1);
    std::ostringstream t;
    t.precision(9);
    if (bad == 4) { t << ""; }                                        // empty file
    else if (bad == 5) { int n = s.range(1, 300); for (int i = 0; i < n; ++i) t << char('a' + s.range(0, 25)); }
    else if (bad == 6) { t << "\n" << m(0, 0); }                      // the matrix ends before it starts
    else if (bad == 7) { t << "# comment" << eol << m(0, 0); }
    else {
        int r1 = bad == 1 ? at + (at == 0 ? 1 : 0) : rows;             // rows missing
        if (bad == 1 && r1 >= rows) r1 = rows - 1;
        for (int r = 0; r < r1; ++r) {
            if (s.chance(1, 5)) t << sep;
            int c1 = (bad == 3 && r == at) ? atc : cols;               // a row too short
            if (c1 == 0) t << "-";
            for (int c = 0; c < c1; ++c) {
                if (bad == 2 && r == at && c == atc) t << s.pick<std::string>({"abc", "--1", "nan?", "e5", ",", "#"});
                else t << m(r, c);
                if (c + 1 < c1) t << sep;
            }
            for (int c = 0; c < extraCols && !bad; ++c) t << sep << s.real(-5, 5);
            if (r + 1 < r1 || extraRows || lastEol) t << eol;
        }
        for (int r = 0; r < extraRows && !bad; ++r) { for (int c = 0; c < cols; ++c) t << s.real(-9, 9) << sep; t << eol; }
    }
    o << t.str();
    x.desc << name << (bad ? " malformed " : " ") << "\"" << t.str().substr(0, 120) << "\"; ";
    return bad ? BAD : OK;
}
bool near(double a, double b) { return std::fabs(a - b) <= 2e-6 * std::max(1.0, std::fabs(b)); }

struct Values {
    double period, na, ng, nwa, nwg, grav, sigma, parallax, trans;
    unsigned frames, tracked;
    V3 ba, bg;
};
Values read(Configurator *c) {
    return {c->imu.period, c->imu.sigmaBiasAccel, c->imu.sigmaBiasGyro, c->imu.sigmaBiasAccelRandomWalk, c->imu.sigmaBiasGyroRandomWalk, c->imu.gravityNorm,
            c->vision.sigmaVision, c->vision.minKeyframeMeanParallax, c->vision.maxKeyframeTranslation, c->vision.maxFrameNum, c->vision.minKeyframeTrackedFeatureNum,
            d(c->imu.defaultBiasAccel), d(c->imu.defaultBiasGyro)};
}

void readConfig(pbt::Src &s, pbt::Ctx &x) {
    const std::string dir = scratch();
    Configurator *c = Configurator::GetInstance();
    const std::vector<std::string> names = {"imu_frequence.txt", "imu_na_ng_nwa_nwg.txt", "imu_bias_a_g_init.txt", "gravity_norm.txt", "window_size.txt",
                                            "vision_measure_noise.txt", "keyframe_policy.txt", "T_bc0.txt", "T_bc1.txt", "T_bc2.txt", "T_bc3.txt", "T_bc4.txt",
                                            "T_bc5.txt", "T_bc6.txt", "T_bc7.txt", "T_bc8.txt", "T_bc9.txt", "T_bc10.txt", "T_bc11.txt"};
    int bad = 0, missing = 0, good = 0;
    auto count = [&](Kind k) { (k == OK ? good : k == BAD ? bad : missing)++; return k; };
    const int rounds = s.range(1, 2);                    // a second directory read by the same process
    for (int round = 0; round < rounds; ++round) {
        wipe(dir, names);
        Values want = read(c);
        // the sources of the defaults are the previous values in force
        auto M = [&](int r, int cc, double lo, double hi) { Matrix m(r, cc); for (int i = 0; i < r; ++i) for (int j = 0; j < cc; ++j) m(i, j) = float(s.real(lo, hi)); return m; };
        Matrix m;
        m = M(1, 1, 20, 1000); if (s.chance(1, 2)) m(0, 0) = s.pick<float>({100, 200, 250, 400});
        if (count(emit(s, x, dir, names[0], m)) == OK) want.period = 1.0 / m(0, 0);
        m = M(1, 4, 1e-6, 0.2);
        if (count(emit(s, x, dir, names[1], m)) == OK) { want.na = m(0, 0); want.ng = m(0, 1); want.nwa = m(0, 2); want.nwg = m(0, 3); }
        m = M(2, 3, -0.5, 0.5);
        if (count(emit(s, x, dir, names[2], m)) == OK) { want.ba = V3(m(0, 0), m(0, 1), m(0, 2)); want.bg = V3(m(1, 0), m(1, 1), m(1, 2)); }
        m = M(1, 1, 1, 12);
        if (count(emit(s, x, dir, names[3], m)) == OK) want.grav = m(0, 0);
        m = Matrix(1, 1); m(0, 0) = float(s.range(2, 40));
        if (count(emit(s, x, dir, names[4], m)) == OK) want.frames = unsigned(m(0, 0));
        m = M(1, 1, 1e-4, 0.1);
        if (count(emit(s, x, dir, names[5], m)) == OK) want.sigma = m(0, 0);
        m = M(1, 3, 0.01, 2); m(0, 0) = float(s.range(0, 200));
        if (count(emit(s, x, dir, names[6], m)) == OK) { want.tracked = unsigned(m(0, 0)); want.parallax = m(0, 1); want.trans = m(0, 2); }
        const int files = s.chance(1, 8) ? s.range(5, 11) : s.range(0, 4);
        std::vector<std::pair<Q, V3>> cams;
        bool open = true;
        for (int i = 0; i < files; ++i) {
            Q q = rot(s);
            V3 p = vec(s, 1);
            Matrix t = Matrix::Identity(4, 4);
            t.block<3, 3>(0, 0) = q.toRotationMatrix().cast<float>();
            t.block<3, 1>(0, 3) = p.cast<float>();
            Kind k = count(emit(s, x, dir, names[7 + i], t, s.chance(1, 3)));
            open = open && k == OK;
            if (open) cams.emplace_back(q, p);
        }
        double gravityBefore = IMUFullState::gravity_w.z();
        const bool viaBackend = s.chance(1, 2);
        std::unique_ptr<Backend> b;
        if (viaBackend) { b.reset(new Backend()); b->ConfigParams(dir); }
        else c->ReadConfigParams(dir);
        c->Information();
        Values got = read(c);
#define SAME(f, what) PBT_CHECK(near(got.f, want.f), what << " is " << got.f << " after reading the configuration, expected " << want.f)
        SAME(period, "IMU period"); SAME(na, "accelerometer noise"); SAME(ng, "gyroscope noise"); SAME(nwa, "accelerometer random walk"); SAME(nwg, "gyroscope random walk");
        SAME(grav, "gravity norm"); SAME(sigma, "vision noise"); SAME(parallax, "key frame parallax"); SAME(trans, "key frame translation");
        SAME(frames, "window size"); SAME(tracked, "key frame tracked features");
        PBT_CHECK((got.ba - want.ba).norm() < 1e-5 && (got.bg - want.bg).norm() < 1e-5, "initial bias " << str(got.ba) << str(got.bg) << ", expected " << str(want.ba) << str(want.bg));
        PBT_CHECK(c->vision.maxCameraNum == cams.size() && c->vision.default_p_bc.size() == cams.size() && c->vision.default_q_bc.size() == cams.size(),
                  "cameras: count " << c->vision.maxCameraNum << ", " << c->vision.default_p_bc.size() << " positions, " << c->vision.default_q_bc.size() << " rotations, expected " << cams.size());
        for (std::size_t i = 0; i < cams.size(); ++i) {
            PBT_CHECK((d(c->vision.default_p_bc[i]) - cams[i].second).norm() < 1e-5, "position of camera " << i << " " << str(d(c->vision.default_p_bc[i])) << ", expected " << str(cams[i].second));
            PBT_CHECK(angle(d(c->vision.default_q_bc[i]).normalized(), cams[i].first) < 1e-3, "rotation of camera " << i << " " << str(d(c->vision.default_q_bc[i])) << ", expected " << str(cams[i].first));
        }
        const V3 g = d(IMUFullState::gravity_w);
        if (viaBackend) PBT_CHECK((g - V3(0, 0, want.grav)).norm() < 1e-5, "gravity in force after configuring is " << str(g) << ", configured " << want.grav);
        else PBT_CHECK(g.z() == float(gravityBefore), "reading the configuration alone changed gravity");
    }
    wipe(dir, names);
    x.label("malformed file", bad > 0);
    x.label("missing file", missing > 0);
    x.label("second directory", rounds == 2);
    x.nontrivial(good >= 2 && bad + missing > 0);
}

// the parameters in force are those read last, in every part of the estimator: it behaves as the reference set up with them
void inForce(pbt::Src &s, pbt::Ctx &x) {
    const sim::Kind k = s.pick<sim::Kind>({sim::BIAS_NOISE, sim::BIAS});
    sim::Scenario c = sim::scenario(s, k, s.real(0.5, 1.0));
    c.perFrame = 14;
    c.cfg.maxFeatures = 100;
    c.cfg.window = s.range(1, 5);
    c.cfg.tracked = s.pick<int>({10, 15, 0});
    c.cfg.parallax = s.logReal(0.01, 0.5); c.cfg.translation = s.logReal(0.02, 0.5);
    c.cfg.na = s.logReal(1e-3, 0.3); c.cfg.ng = s.logReal(1e-3, 0.3); c.cfg.nwa = s.logReal(1e-3, 3); c.cfg.nwg = s.logReal(1e-3, 1);
    c.cfg.sigma = s.logReal(0.0005, 0.01);
    c.cfg.ba = vec(s, 0.2); c.cfg.bg = vec(s, 0.1);
    c.ba = c.cfg.ba + vec(s, 0.01); c.bg = c.cfg.bg + vec(s, 0.01);
    c.imgShift = 0;
    sim::describe(x, c, k);
    x.desc << "noise set to " << c.cfg.na << " " << c.cfg.ng << " " << c.cfg.nwa << " " << c.cfg.nwg << ", vision " << c.cfg.sigma << "; ";
    auto st = sim::simulate(c);
    if (sim::fewest(st) < 12) throw pbt::Discard{};
    std::srand(1);
    Backend b;
    const std::string dir = sim::scratch();
    auto *conf = Configurator::GetInstance();
    conf->vision.maxFeatureNumForUpdate = 100;
    const int before = s.range(0, 2);                     // folders read before, from which files missing in the last one take effect
    std::vector<std::string> absent;
    for (int i = 0; i < before; ++i) {
        sim::Config o;
        o.imuHz = s.pick<double>({50, 100, 300, 700}); o.na = s.logReal(1e-3, 0.3); o.ng = s.logReal(1e-3, 0.3); o.nwa = s.logReal(1e-3, 3); o.nwg = s.logReal(1e-3, 1);
        o.gravity = s.real(3, 11); o.sigma = s.logReal(0.0005, 0.01); o.ba = vec(s, 0.2); o.bg = vec(s, 0.1); o.window = s.range(1, 12); o.tracked = s.range(0, 60);
        o.parallax = s.logReal(0.01, 0.5); o.translation = s.logReal(0.02, 0.5);
        for (int e = s.range(0, 4); e > 0; --e) o.ext.push_back({rot(s), vec(s, 0.3)});
        if (i == before - 1) {
            auto keep = [&](const std::string &name, auto same) { if (s.chance(1, 4)) { same(); absent.push_back(name); } };
            keep("imu_frequence.txt", [&] { o.imuHz = c.cfg.imuHz; });
            keep("imu_na_ng_nwa_nwg.txt", [&] { o.na = c.cfg.na; o.ng = c.cfg.ng; o.nwa = c.cfg.nwa; o.nwg = c.cfg.nwg; });
            keep("imu_bias_a_g_init.txt", [&] { o.ba = c.cfg.ba; o.bg = c.cfg.bg; });
            keep("gravity_norm.txt", [&] { o.gravity = c.cfg.gravity; });
            keep("window_size.txt", [&] { o.window = c.cfg.window; });
            keep("vision_measure_noise.txt", [&] { o.sigma = c.cfg.sigma; });
            keep("keyframe_policy.txt", [&] { o.tracked = c.cfg.tracked; o.parallax = c.cfg.parallax; o.translation = c.cfg.translation; });
        }
        o.write(dir);
        PBT_CHECK(b.ConfigParams(dir), "the configuration is not accepted");
    }
    c.cfg.write(dir);
    for (auto &n : absent) { ::remove((dir + "/" + n).c_str()); x.desc << n << " kept from before; "; }
    PBT_CHECK(b.ConfigParams(dir), "the configuration is not accepted");
    whole::Estimator ref(c.cfg);
    const double origin = st.order.front().t;
    int images = 0;
    for (std::size_t i = 0; i < st.order.size(); ++i) {
        auto &o = st.order[i];
        whole::push(ref, st, o, origin);
        if (ref.doubt < 1) throw pbt::Discard{};
        sim::push(b, st, o);
        b.RunOnce();
        const std::string bad = whole::differs(ref, b);
        PBT_CHECK(bad.empty(), "with these parameters in force, after message " << i << " at " << o.t - origin << " s " << bad);
        images += ref.tracking && o.image;
    }
    x.label("configured again", before > 0);
    x.label("values kept", !absent.empty());
    x.label("frames dropped", ref.keys + ref.subs > 0);
    x.nontrivial(images > 3 && ref.points > 30);
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C03",
            "configuration directories with valid, over-long, truncated, garbled, empty and missing files; non-trivial when at least two files are valid and one is malformed or missing; "
            "inForce: an estimator configured from one to three folders, the last one without some of the files, compared message by message with a double-precision estimator with the parameters in force",
            {"a file is malformed when one of the wanted numbers is absent or not a number", "T_bc files hold rotations"},
            {{"readConfig", readConfig, 25000, 400000}, {"inForce", inForce, 300, 6000}}};
}
