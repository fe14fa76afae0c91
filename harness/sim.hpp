// Simulated rig: smooth motion that starts at rest, its inertial measurements and feature tracks, and a driver of the
// back end that speaks nothing but its public interface (configuration folder, messages, RunOnce, published states).
#pragma once
#include "common.hpp"
#include <backend.hpp>
#include <config.hpp>
#include <algorithm>
#include <fstream>
#include <map>
#include <sys/stat.h>
#include <unistd.h>

namespace sim {
using namespace vt;

inline std::string scratch() {
    static std::string dir;
    static pid_t owner = 0;
    if (owner != getpid()) {
        const char *base = getenv("VT_SCRATCH");
        dir = std::string(base ? base : "/tmp") + "/sim" + std::to_string(getpid());
        mkdir(dir.c_str(), 0700);
        owner = getpid();
    }
    return dir;
}

struct Ext { Q q; V3 p; };                                             // camera to body

struct Config {
    double imuHz = 200, na = 0.019, ng = 0.015, nwa = 1e-4, nwg = 1e-5, gravity = 9.81, sigma = 0.0021739;
    V3 ba = V3::Zero(), bg = V3::Zero();
    int window = 6, tracked = 30, maxFeatures = 30;
    double parallax = 0.2, translation = 0.05;
    std::vector<Ext> ext;
    void write(const std::string &dir) const {
        auto put = [&](const std::string &name, const MX &m) {
            std::ofstream o(dir + "/" + name);
            o.precision(12);
            for (int i = 0; i < m.rows(); ++i) { for (int j = 0; j < m.cols(); ++j) o << m(i, j) << " "; o << "\n"; }
        };
        put("imu_frequence.txt", MX::Constant(1, 1, imuHz));
        MX n(1, 4); n << na, ng, nwa, nwg; put("imu_na_ng_nwa_nwg.txt", n);
        MX b(2, 3); b.row(0) = ba.transpose(); b.row(1) = bg.transpose(); put("imu_bias_a_g_init.txt", b);
        put("gravity_norm.txt", MX::Constant(1, 1, gravity));
        for (int i = 0; i < 12; ++i) ::remove((dir + "/T_bc" + std::to_string(i) + ".txt").c_str());
        for (std::size_t i = 0; i < ext.size(); ++i) {
            MX T = MX::Identity(4, 4);
            T.topLeftCorner(3, 3) = ext[i].q.toRotationMatrix();
            T.topRightCorner(3, 1) = ext[i].p;
            put("T_bc" + std::to_string(i) + ".txt", T);
        }
        put("window_size.txt", MX::Constant(1, 1, window));
        put("vision_measure_noise.txt", MX::Constant(1, 1, sigma));
        MX k(1, 3); k << tracked, parallax, translation; put("keyframe_policy.txt", k);
    }
};
inline std::vector<Ext> shippedRig() {
    M3 R; R << 0, 0, -1, -1, 0, 0, 0, 1, 0;
    return {{Q(R), V3(0.05, 0.04, 0.03)}, {Q(R), V3(0.05, -0.14, 0.03)}};
}

// position and attitude as ramped sums of sines; at rest until `still`
struct Motion {
    double still = 0.5, ramp = 1.0;
    struct Wave { V3 amp; double w, ph; };
    std::vector<Wave> pos, att;
    Q q0 = Q::Identity();
    V3 drift = V3::Zero();                                            // mean velocity after the ramp
    V3 v0 = V3::Zero();                                               // uniform motion from the beginning
    double yawRate = 0;
    struct Pause { double at, length, ease = 0.5; };                  // the waves stop during a pause; easing out and in takes `ease` each
    std::vector<Pause> pauses;
    static double ramp01(double u) { return u * u * u * u * (35 + u * (-84 + u * (70 - 20 * u))); }
    static double rampInt(double u) { return u * u * u * u * u * (7 + u * (-14 + u * (10 - 2.5 * u))); }
    double warp(double t) const {                                     // time as it passes for the waves
        double lost = 0;
        for (auto &k : pauses) {
            const double e = k.ease, u = (t - k.at + e) / e;
            if (u <= 0) continue;
            if (u <= 1) lost += e * rampInt(u);
            else if (t <= k.at + k.length) lost += e * 0.5 + (t - k.at);
            else { const double v = std::min(1.0, (t - k.at - k.length) / e); lost += e * 0.5 + k.length + e * (v - rampInt(v)); }
        }
        return t - lost;
    }
    double r(double t) const {                                        // C3 ramp from 0 to 1
        double u = (t - still) / ramp;
        u = std::min(1.0, std::max(0.0, u));
        return u * u * u * u * (35 + u * (-84 + u * (70 - 20 * u)));
    }
    V3 p(double time) const {
        const double t = pauses.empty() ? time : warp(time);
        V3 s = V3::Zero();
        for (auto &w : pos) s += w.amp * (std::sin(w.w * (t - still) + w.ph) - std::sin(w.ph));
        return r(t) * (s + drift * (t - still)) + v0 * time;
    }
    Q q(double time) const {
        const double t = pauses.empty() ? time : warp(time);
        V3 s = V3::Zero();
        for (auto &w : att) s += w.amp * (std::sin(w.w * (t - still) + w.ph) - std::sin(w.ph));
        s *= r(t);
        return expq(V3(0, 0, s.z() + yawRate * time)) * expq(V3(0, s.y(), 0)) * expq(V3(s.x(), 0, 0)) * q0;
    }
    V3 v(double t) const { const double h = 1e-4; return (p(t + h) - p(t - h)) / (2 * h); }
    V3 a(double t) const { const double h = 1e-3; return (p(t + h) - 2 * p(t) + p(t - h)) / (h * h); }
    V3 w(double t) const { const double h = 1e-4; return logq(q(t - h).conjugate() * q(t + h)) / (2 * h); }
};
inline Motion motion(pbt::Src &s, double speed, double turn) {
    Motion m;
    m.still = s.real(0.3, 0.8);
    m.ramp = s.real(0.8, 2);
    const int n = s.range(1, 3);
    for (int i = 0; i < n; ++i) { const double w = s.real(0.3, 2.0); m.pos.push_back({dir(s) * (speed / w / n) * s.real(0.3, 1), w, s.real(-M_PI, M_PI)}); }
    const int k = s.range(1, 2);
    for (int i = 0; i < k; ++i) {
        const double w = s.real(0.3, 1.5);
        V3 a(s.real(-0.4, 0.4), s.real(-0.4, 0.4), s.real(-1, 1));
        m.att.push_back({a * (turn / w / k), w, s.real(-M_PI, M_PI)});
    }
    m.q0 = expq(V3(0, 0, s.real(-M_PI, M_PI))) * expq(V3(s.real(-0.6, 0.6), s.real(-0.6, 0.6), 0));
    if (s.chance(1, 2)) m.drift = dir(s) * speed * s.unit() * 0.5;
    return m;
}

struct Event { double t; bool image; int index; };                    // one message of the stream
struct Stream {
    std::vector<std::shared_ptr<vio::IMUMessage>> imu;
    std::vector<std::shared_ptr<vio::FeaturesMessage>> img;
    std::vector<Event> order;                                         // by time; the measurement before the image of the same time
    void sortEvents() {
        order.clear();
        for (std::size_t i = 0; i < imu.size(); ++i) order.push_back({imu[i]->timeStamp, false, int(i)});
        for (std::size_t i = 0; i < img.size(); ++i) order.push_back({img[i]->timeStamp, true, int(i)});
        std::stable_sort(order.begin(), order.end(), [](const Event &a, const Event &b) { return a.t < b.t; });
    }
};

struct Scenario {
    Config cfg;
    Motion mot;
    double duration = 4, t0 = 0;
    int imgEvery = 20;                                                // measurements per image
    double imgShift = 0;                                              // offset of the images from the measurement grid, seconds
    int firstImage = 0;                                               // measurements before the first image
    V3 ba = V3::Zero(), bg = V3::Zero();                              // true bias
    double accNoise = 0, gyrNoise = 0, pixNoise = 0;
    int landmarks = 400, perFrame = 60;
    double near = 2, far = 10, fov = 0.9;
    double outliers = 0;
    std::uint64_t seed = 1;                                           // of the landmarks and the noise
    double period() const { return 1.0 / cfg.imuHz; }
};

struct Rng {
    std::uint64_t s;
    double u() { return double(pbt::splitmix(s) >> 11) / 9007199254740992.0; }
    double n() { double a = u() + 1e-300, b = u(); return std::sqrt(-2 * std::log(a)) * std::cos(2 * M_PI * b); }
    V3 n3() { double a = n(), b = n(), c = n(); return V3(a, b, c); }
};

inline Stream simulate(const Scenario &c) {
    Stream st;
    Rng g{c.seed * 2654435761u + 12345};
    const double dt = c.period();
    const int n = int(std::lround(c.duration / dt));
    const V3 gw(0, 0, c.cfg.gravity);
    for (int k = 0; k <= n; ++k) {
        const double t = k * dt;
        const Q q = c.mot.q(t);
        const V3 w = c.mot.w(t) + c.bg + c.gyrNoise * g.n3(), a = q.conjugate() * (c.mot.a(t) + gw) + c.ba + c.accNoise * g.n3();
        st.imu.push_back(std::make_shared<vio::IMUMessage>(f(w), f(a), c.t0 + t));
    }
    // landmarks around the path
    std::vector<V3> lm;
    for (int i = 0; i < c.landmarks; ++i) {
        V3 d = g.n3().normalized();
        const double t = g.u() * c.duration, r = c.near + (c.far - c.near) * std::cbrt(g.u());
        lm.push_back(c.mot.p(t) + d * r);
    }
    std::map<int, std::uint32_t> alive;
    std::uint32_t next = 1;
    for (int k = c.firstImage; k <= n; k += c.imgEvery) {
        const double t = k * dt + c.imgShift;
        const Q q = c.mot.q(t);
        const V3 p = c.mot.p(t);
        struct Cand { int id; std::vector<V2> z; bool tracked; };
        std::vector<Cand> cand;
        for (std::size_t i = 0; i < lm.size(); ++i) {
            Cand d{int(i), {}, alive.count(int(i)) > 0};
            for (auto &e : c.cfg.ext) {
                const V3 pc = e.q.conjugate() * (q.conjugate() * (lm[i] - p) - e.p);
                if (pc.z() < 0.5 || std::fabs(pc.x() / pc.z()) > c.fov || std::fabs(pc.y() / pc.z()) > c.fov) break;
                d.z.push_back(V2(pc.x() / pc.z(), pc.y() / pc.z()));
            }
            if (d.z.size() == c.cfg.ext.size()) cand.push_back(d);
        }
        std::stable_sort(cand.begin(), cand.end(), [](const Cand &a, const Cand &b) { return a.tracked > b.tracked; });
        if (int(cand.size()) > c.perFrame) cand.resize(c.perFrame);
        std::map<int, std::uint32_t> now;
        std::vector<std::uint32_t> ids;
        std::vector<std::shared_ptr<vio::FeatureObserve>> obs;
        std::vector<std::uint8_t> flag;
        for (auto &d : cand) {
            const std::uint32_t id = d.tracked ? alive[d.id] : next++;
            now[d.id] = id;
            auto o = std::make_shared<vio::FeatureObserve>();
            const bool out = c.outliers > 0 && g.u() < c.outliers;
            for (std::size_t j = 0; j < d.z.size(); ++j) {
                V2 z = d.z[j] + c.pixNoise * V2(g.n(), g.n());
                if (out) z += V2(g.n(), g.n()) * 0.1;
                o->norms[std::uint32_t(j)] = f(z);
            }
            ids.push_back(id); obs.push_back(o); flag.push_back(0);
        }
        alive = now;
        st.img.push_back(std::make_shared<vio::FeaturesMessage>(ids, obs, flag, c.t0 + t));
    }
    st.sortEvents();
    return st;
}

// real tracks: seen by some of the cameras only, lost for some images and found again
inline void thin(Stream &st, double cameras, double images, std::uint64_t seed) {
    Rng g{seed * 6364136223846793005u + 77};
    for (auto &m : st.img) {
        std::vector<std::uint32_t> ids;
        std::vector<std::shared_ptr<vio::FeatureObserve>> obs;
        for (std::size_t i = 0; i < m->ids.size(); ++i) {
            const bool gone = g.u() < images;
            auto &z = m->observes[i]->norms;
            std::vector<std::uint32_t> cams;
            for (auto &k : z) cams.push_back(k.first);
            std::sort(cams.begin(), cams.end());
            for (auto k : cams) if (z.size() > 1 && g.u() < cameras) z.erase(k);
            if (!gone) { ids.push_back(m->ids[i]); obs.push_back(m->observes[i]); }
        }
        m->ids = ids; m->observes = obs; m->flag.assign(ids.size(), 0);
    }
}

// messages are shared with the back end, which may shift their time stamps: give every run its own
inline std::shared_ptr<vio::IMUMessage> copy(const std::shared_ptr<vio::IMUMessage> &m) { return std::make_shared<vio::IMUMessage>(*m); }
inline std::shared_ptr<vio::FeaturesMessage> copy(const std::shared_ptr<vio::FeaturesMessage> &m) {
    auto r = std::make_shared<vio::FeaturesMessage>(*m);
    for (auto &o : r->observes) if (o) o = std::make_shared<vio::FeatureObserve>(*o);
    return r;
}

struct Pub { bool ok = false; double t = 0; V3 p, v, ba, bg; Q q; };
// what a caller's variable may hold before: nothing of it may be left in a published state
inline vio::IMUFullState blank() {
    const vio::Vector3 z(1234.5f, -777.25f, 4321.0f);
    return vio::IMUFullState(z, vio::Quaternion(0.5f, -0.5f, 0.5f, 0.5f), z, z, z);
}
inline Pub latest(vio::Backend &b) {
    vio::IMUFullState s = blank(); double t = -12345.678; Pub r;
    r.ok = b.PublishPropagateState(s, t);
    if (r.ok) { r.t = t; r.p = d(s.p_wb); r.v = d(s.v_wb); r.q = d(s.q_wb); r.ba = d(s.bias_a); r.bg = d(s.bias_g); }
    return r;
}
inline Pub updated(vio::Backend &b) {
    vio::IMUFullState s = blank(); double t = -12345.678; Pub r;
    r.ok = b.PublishUpdateState(s, t);
    if (r.ok) { r.t = t; r.p = d(s.p_wb); r.v = d(s.v_wb); r.q = d(s.q_wb); r.ba = d(s.bias_a); r.bg = d(s.bias_g); }
    return r;
}
inline bool same(const Pub &a, const Pub &b) {
    return a.ok == b.ok && (!a.ok || (a.t == b.t && a.p == b.p && a.v == b.v && a.q.coeffs() == b.q.coeffs() && a.ba == b.ba && a.bg == b.bg));
}
inline bool configure(vio::Backend &b, const Config &c) {
    const std::string dir = scratch();
    c.write(dir);
    auto *k = vio::Configurator::GetInstance();
    k->vision.maxFeatureNumForUpdate = c.maxFeatures;
    return b.ConfigParams(dir + "/");
}
inline void push(vio::Backend &b, const Stream &s, const Event &e) {
    if (e.image) b.GetFeaturesMessage(copy(s.img[e.index])); else b.GetIMUMessage(copy(s.imu[e.index]));
}

// 4-degree-of-freedom alignment (yaw and translation) of the estimate to the truth
struct Align { double yaw = 0; V3 t = V3::Zero(); Q q() const { return expq(V3(0, 0, yaw)); } };
inline Align align(const std::vector<V3> &est, const std::vector<V3> &tru, const std::vector<Q> &eq, const std::vector<Q> &tq) {
    Align a;
    V3 ce = V3::Zero(), ct = V3::Zero();
    for (std::size_t i = 0; i < est.size(); ++i) { ce += est[i]; ct += tru[i]; }
    ce /= double(est.size()); ct /= double(est.size());
    // the yaw comes from the attitudes, which determine it even when the path is short
    double sn = 0, cs = 0;
    for (std::size_t i = 0; i < est.size(); ++i) {
        const Q dq = tq[i] * eq[i].conjugate();
        const double y = 2 * std::atan2(dq.z(), dq.w());
        sn += std::sin(y); cs += std::cos(y);
    }
    a.yaw = std::atan2(sn, cs);
    a.t = ct - a.q() * ce;
    return a;
}
} // namespace sim

namespace sim {
enum Kind { EXACT, BIAS, NOISE, BIAS_NOISE };
inline const char *name(Kind k) { return k == EXACT ? "exact" : k == BIAS ? "unknown bias" : k == NOISE ? "noise" : "bias and noise"; }

// a scenario in which the estimator has what it needs: a start without acceleration, enough tracks, two or three cameras
inline Scenario scenario(pbt::Src &s, Kind k, double duration) {
    Scenario c;
    c.cfg.imuHz = s.pick<double>({200, 100, 125, 250, 400, 500, 150, 333});
    const double speed = s.logReal(0.1, 3), turn = s.real(0, 1.5);
    c.mot = motion(s, speed, turn);
    if (s.chance(1, 3)) c.mot.v0 = dir(s) * s.real(0, speed);
    if (s.chance(1, 3)) c.mot.yawRate = s.real(-0.6, 0.6);
    c.duration = duration;
    c.imgEvery = std::max(2, int(std::lround(c.cfg.imuHz * s.pick<double>({0.05, 0.1, 0.04, 0.08}))));
    c.firstImage = s.range(0, 3 * c.imgEvery);
    c.cfg.gravity = s.pick<double>({9.81, 9.81, 9.79, 3.7, 9.8});
    c.cfg.window = s.range(3, 10);
    c.cfg.tracked = s.pick<int>({30, 5, 60, 0});
    c.cfg.parallax = s.pick<double>({0.2, 0.02, 0.05, 1});
    c.cfg.translation = s.pick<double>({0.05, 0.02, 0.2, 5});
    c.cfg.maxFeatures = s.pick<int>({30, 10, 15, 60});
    c.perFrame = s.pick<int>({60, 30, 20, 90});
    c.landmarks = s.pick<int>({500, 900});
    c.far = s.pick<double>({10, 5, 15});
    if (s.chance(1, 3)) c.t0 = s.pick<double>({1e3, 1.6e9, 0.123456, -50});
    if (s.chance(1, 4)) c.imgShift = s.real(-0.45, 0.45) * c.period();
    if (s.chance(1, 2)) c.cfg.ext = shippedRig();
    else {
        const int n = s.range(2, 3);
        const Q q = rot(s);
        const V3 p = vec(s, 0.2);
        for (int i = 0; i < n; ++i) {
            V3 off = V3::Zero();
            if (i) { const double b = s.real(0.12, 0.3); off = q * V3(V3(i == 1 ? b : -b * 0.5, i == 1 ? 0 : b, 0) + vec(s, 0.02)); }
            c.cfg.ext.push_back({i ? (q * expq(vec(s, 0.1))).normalized() : q, p + off});
        }
    }
    if (s.chance(1, 2)) { c.ba = vec(s, 0.2); c.bg = vec(s, 0.1); c.cfg.ba = c.ba; c.cfg.bg = c.bg; }
    if (k == BIAS || k == BIAS_NOISE) { c.ba += vec(s, 0.01); c.bg += vec(s, 0.01); }
    if (k == NOISE || k == BIAS_NOISE) {
        c.perFrame = s.pick<int>({60, 90}); c.cfg.maxFeatures = s.pick<int>({30, 60});   // enough to average the noise
        c.accNoise = s.real(0, 0.01); c.gyrNoise = s.real(0, 0.004); c.pixNoise = s.real(0.0002, 0.001); }
    c.seed = s.choice(1u << 30);
    return c;
}
// tracks with all cameras that the first two images share
inline int shared(const Stream &st, std::size_t i, std::size_t j) {
    if (std::max(i, j) >= st.img.size()) return 0;
    int n = 0;
    for (auto a : st.img[i]->ids) n += std::count(st.img[j]->ids.begin(), st.img[j]->ids.end(), a) > 0;
    return n;
}
inline int fewest(const Stream &st) {
    int n = 1000;
    for (std::size_t i = 1; i < st.img.size(); ++i) n = std::min(n, shared(st, i - 1, i));
    return n;
}
inline void describe(pbt::Ctx &x, const Scenario &c, Kind k) {
    x.desc << name(k) << ": " << c.cfg.imuHz << " Hz, image every " << c.imgEvery << " shifted " << c.imgShift << " from sample " << c.firstImage << ", gravity " << c.cfg.gravity << ", window "
           << c.cfg.window << ", key frames " << c.cfg.tracked << " " << c.cfg.parallax << " " << c.cfg.translation << ", " << c.cfg.ext.size() << " cameras, " << c.perFrame << " tracks, "
           << c.cfg.maxFeatures << " used, t0 " << c.t0 << ", bias " << str(c.ba) << " " << str(c.bg) << " (configured " << str(c.cfg.ba) << " " << str(c.cfg.bg) << "), noise " << c.accNoise << " "
           << c.gyrNoise << " " << c.pixNoise << ", " << c.duration << " s\n";
}
} // namespace sim
