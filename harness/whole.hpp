// Double-precision reference of the whole estimator: levelling, start, propagation, update and window, in one piece and
// in information form, driven by the same messages.
#pragma once
#include "msckfref.hpp"
#include "sim.hpp"
#include <attitude_estimate.hpp>
#include <map>

namespace whole {
using namespace vt;
using sim::Scenario;

class Estimator {
public:
    explicit Estimator(const sim::Config &c) : c_(c), period_(double(float(1.0 / c.imuHz))) {
        for (auto &e : c.ext) { Cam k{d(vt::f(e.q)).normalized(), d(vt::f(e.p))}; F.ex.push_back(k); }
        F.ba = d(vt::f(c.ba)); F.bg = d(vt::f(c.bg));
        aba_ = F.ba; abg_ = F.bg;
        g_ = V3(0, 0, double(float(c.gravity)));
        Qn_ = MX::Zero(12, 12);
        Qn_.diagonal() << V3::Constant(c.na), V3::Constant(c.ng), V3::Constant(c.nwa), V3::Constant(c.nwg);
    }
    bool tracking = false;
    Filter F;                                                        // at the origin of the propagation
    Nav last;
    double biasRounding() const { return 1 + 10 * std::sqrt(std::min(1.0, Qn_(6, 6))); } // a bias that may walk is learnt from noise, rounding included
    double originTime() const { return m_.front().t; }
    double lastTime() const { return m_.back().t; }
    double doubt = INFINITY;                                          // how clearly all decisions so far were taken (1: by a factor of about two)
    int updates = 0, points = 0, keys = 0, subs = 0, starts = 0;

    void reset() { tracking = false; }
    void imu(const Imu &m) {
        level(m);
        if (!tracking) return;
        m_.push_back(m);
        last = midpoint(last, m_[m_.size() - 2], m_.back(), F.ba, F.bg, g_);
    }
    void image(double t, const std::vector<std::uint32_t> &ids, const std::vector<std::map<int, V2>> &obs) {
        Frame fr;
        fr.t = t;
        for (std::size_t i = 0; i < ids.size(); ++i) fr.obs[ids[i]] = obs[i];
        win_.push_back(fr);
        if (!tracking) {
            if (start()) tracking = true;
            else { while (win_.size() > 1) win_.pop_front(); return; }
        }
        if (!update(t)) { tracking = false; while (win_.size() > 1) win_.pop_front(); }
        else { aba_ = F.ba; abg_ = F.bg; }
    }

private:
    struct Frame { double t; std::map<std::uint32_t, std::map<int, V2>> obs; };
    const sim::Config c_;
    const double period_;
    V3 g_, aba_, abg_, integral_ = V3::Zero();
    MX Qn_;
    std::vector<std::pair<Imu, Q>> att_;
    std::deque<Frame> win_;
    std::deque<Imu> m_;

    void unsure(double margin) { doubt = std::min(doubt, margin); }
    void level(const Imu &m) {
        static const vio::AttitudeEstimate gains;
        if (att_.empty()) {
            const V3 a = m.a - aba_;
            unsure(std::fabs(std::fabs(a.norm() - g_.norm()) - 0.04) / 1e-4);
            if (std::fabs(a.norm() - g_.norm()) > 0.04) return;
            att_.push_back({m, Q::FromTwoVectors(a, g_)});
            return;
        }
        auto &[p, q] = att_.back();
        const V3 e = (m.a - aba_).normalized().cross(q.conjugate() * g_.normalized());
        integral_ += e * double(gains.Ki);
        const V3 w = 0.5 * (p.w + m.w) - abg_ + e * double(gains.Kp) + integral_;
        const double h = (m.t - p.t) / 2;
        const Q n = (q * Q(1, w.x() * h, w.y() * h, w.z() * h)).normalized();
        att_.push_back({m, n});
    }
    static void tri(const std::vector<Cam> &cams, const std::vector<V2> &z, V3 *pw, bool *ok, double *margin) {
        Eigen::Matrix4d N = Eigen::Matrix4d::Zero();
        if (cams.size() < 2) { *ok = false; return; }
        for (std::size_t i = 0; i < cams.size(); ++i) {
            const M3 R = cams[i].q.conjugate().toRotationMatrix();
            Eigen::Matrix<double, 3, 4> T;
            T << R, -(R * cams[i].p);
            const Eigen::RowVector4d a = z[i].x() * T.row(2) - T.row(0), b = z[i].y() * T.row(2) - T.row(1);
            N += a.transpose() * a + b.transpose() * b;
        }
        Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d> es(N);
        const Eigen::Vector4d x = es.eigenvectors().col(0);
        *pw = x.head<3>() / x(3);
        double near = INFINITY;
        for (auto &c : cams) near = std::min(near, depth(c, *pw));
        *ok = near > 0;
        // a point at infinity or next to a camera, or badly determined, is not clear
        *margin = std::min({std::fabs(x(3)) / 1e-4, std::fabs(near) / 0.05, std::sqrt(es.eigenvalues()(1) / std::max(1e-300, es.eigenvalues()(3))) / 1e-4});
    }
    bool start() {
        if (win_.size() != 2) return false;
        const Frame &a = win_[0], &b = win_[1];
        // the attitude next to the first image
        int at = -1;
        double best = INFINITY;
        for (std::size_t i = 0; i < att_.size(); ++i) if (std::fabs(att_[i].first.t - a.t) < best) { best = std::fabs(att_[i].first.t - a.t); at = int(i); }
        unsure(std::fabs(best / period_ - 0.55) / 0.02);
        if (at < 0 || best >= 0.55 * period_) return false;
        const Cam body{att_[at].second, V3::Zero()};
        std::vector<V3> pw;
        std::vector<V2> z;
        for (auto &[id, o] : a.obs) {
            auto it = b.obs.find(id);
            std::vector<Cam> cams;
            std::vector<V2> zz;
            for (auto &[k, v] : o) { cams.push_back({body.q * F.ex[k].q, body.p + body.q * F.ex[k].p}); zz.push_back(v); }
            if (it == b.obs.end() || !it->second.count(0)) continue;
            V3 p; bool ok = false; double margin = INFINITY;
            tri(cams, zz, &p, &ok, &margin);
            if (cams.size() > 1) unsure(margin);
            if (!ok) continue;
            pw.push_back(p);
            z.push_back(it->second.at(0));
        }
        if (pw.size() < 10) return false;
        Cam cam{body.q * F.ex[0].q, body.p + body.q * F.ex[0].p};
        double step = 1;
        for (int k = 0; k < 30 && step > 1e-12; ++k) {
            Eigen::Matrix<double, 6, 6> H = Eigen::Matrix<double, 6, 6>::Zero();
            Eigen::Matrix<double, 6, 1> r = Eigen::Matrix<double, 6, 1>::Zero();
            for (std::size_t i = 0; i < pw.size(); ++i) {
                const V3 c = cam.q.conjugate() * (pw[i] - cam.p);
                const V2 e = V2(c.x() / c.z(), c.y() / c.z()) - z[i];
                unsure(std::fabs(e.norm() - 1) / 0.5);                // beyond 1 the weights change
                Eigen::Matrix<double, 2, 3> jp;
                jp << 1 / c.z(), 0, -c.x() / (c.z() * c.z()), 0, 1 / c.z(), -c.y() / (c.z() * c.z());
                Eigen::Matrix<double, 2, 6> J;
                J << -jp * cam.q.conjugate().toRotationMatrix(), jp * skew(c);
                H += J.transpose() * J; r -= J.transpose() * e;
            }
            const Eigen::Matrix<double, 6, 1> dx = H.ldlt().solve(r);
            cam.p += dx.head<3>();
            cam.q = (cam.q * expq(dx.tail<3>())).normalized();
            step = dx.norm();
        }
        if (!(step < 1e-9)) unsure(0);
        const Q qb = cam.q * F.ex[0].q.conjugate();
        const V3 pb = cam.p - qb * F.ex[0].p;
        F.imu = {V3::Zero(), pb / (b.t - a.t), body.q};
        F.frames = {body};
        F.P = MX::Zero(F.dim(), F.dim());
        m_.clear();
        for (auto &i : att_) if (i.first.t >= a.t - 0.55 * period_) { unsure(std::fabs((a.t - i.first.t) / period_ - 0.55) / 0.02); m_.push_back(i.first); }
        // only what is needed from now on
        last = F.imu;
        for (std::size_t i = 1; i < m_.size(); ++i) last = midpoint(last, m_[i - 1], m_[i], F.ba, F.bg, g_);
        ++starts;
        return true;
    }
    bool update(double t) {
        auto step = [&] { F.propagate(m_[0], m_[1], g_, Qn_); m_.pop_front(); };
        unsure(std::fabs((t - m_.back().t) / period_ - 1) / 1e-3);
        while (t - m_.front().t > period_) { if (m_.size() == 1) return false; step(); }
        if (m_.size() > 1) unsure(std::fabs(std::fabs(m_[1].t - t) - std::fabs(m_[0].t - t)) / (0.01 * period_));
        while (m_.size() > 1 && std::fabs(m_[1].t - t) < std::fabs(m_[0].t - t)) step();
        if (F.frames.size() + 1 != win_.size()) return false;
        // what leaves the window afterwards
        int out = -1;
        if (int(win_.size()) > c_.window) {
            const int s = int(win_.size()) - 2;
            bool key = s == 0;
            if (!key) {
                int n = 0;
                double par = 0;
                for (auto &[id, o] : win_[s].obs) {
                    auto p = win_[s - 1].obs.find(id);
                    if (p == win_[s - 1].obs.end() || !o.count(0) || !p->second.count(0)) continue;
                    ++n;
                    par += (o.at(0) - p->second.at(0)).norm();
                }
                const double mean = n ? par / n : 0, way = (F.frames[s].p - F.frames[s - 1].p).norm();
                key = n < c_.tracked || mean > c_.parallax || way > c_.translation;
                if (n >= c_.tracked) {
                    // by how much the decision is clear
                    const double dp = (mean - c_.parallax) / 1e-5, dw = (way - c_.translation) / 3e-3;
                    unsure(key ? std::max(dp, dw) : std::min(-dp, -dw));
                }
            }
            out = key ? 0 : s;
            ++(key ? keys : subs);
        }
        // measurements of all tracks seen in the newest image
        MX A = MX::Zero(F.dim(), F.dim());
        VX y = VX::Zero(F.dim());
        bool any = false;
        const int newest = int(win_.size()) - 1;
        for (auto &[id, o0] : win_.back().obs) {
            std::vector<Obs> obs;
            std::vector<Cam> cams;
            std::vector<V2> z;
            for (int k = 0; k <= newest; ++k) if (win_[k].obs.count(id)) for (auto &[c, v] : win_[k].obs.at(id)) { obs.push_back({k, c, v}); cams.push_back(F.camera(obs.back())); z.push_back(v); }
            V3 pw; bool ok = false; double margin = INFINITY;
            if (cams.size() > 1) { tri(cams, z, &pw, &ok, &margin); unsure(margin); }
            if (!ok) continue;
            any = true;
            ++points;
            MX Hx = MX::Zero(2 * obs.size(), F.dim()), Hf(2 * obs.size(), 3);
            VX r(2 * obs.size());
            for (std::size_t i = 0; i < obs.size(); ++i) {
                const Cam b = F.body(obs[i].frame);
                const M3 Rcb = F.ex[obs[i].cam].q.conjugate().toRotationMatrix(), Rbw = b.q.conjugate().toRotationMatrix();
                const V3 pb = Rbw * (pw - b.p), pc = Rcb * (pb - F.ex[obs[i].cam].p);
                Eigen::Matrix<double, 2, 3> J;
                J << 1 / pc.z(), 0, -pc.x() / (pc.z() * pc.z()), 0, 1 / pc.z(), -pc.y() / (pc.z() * pc.z());
                r.segment<2>(2 * i) = obs[i].z - V2(pc.x() / pc.z(), pc.y() / pc.z());
                Hf.block<2, 3>(2 * i, 0) = J * Rcb * Rbw;
                const bool nw = obs[i].frame == newest;
                Hx.block<2, 3>(2 * i, nw ? 0 : F.frameCol(obs[i].frame)) = -J * Rcb * Rbw;
                Hx.block<2, 3>(2 * i, nw ? 6 : F.frameCol(obs[i].frame) + 3) = J * Rcb * skew(pb);
                Hx.block<2, 3>(2 * i, 15 + 6 * obs[i].cam) = -J * Rcb;
                Hx.block<2, 3>(2 * i, 18 + 6 * obs[i].cam) = J * skew(pc);
            }
            // the part of the measurement that does not depend on where the point is
            const M3 N = (Hf.transpose() * Hf).inverse();
            const MX HfHx = Hf.transpose() * Hx;
            const V3 Hfr = Hf.transpose() * r;
            A += Hx.transpose() * Hx - HfHx.transpose() * N * HfHx;
            y += Hx.transpose() * r - HfHx.transpose() * N * Hfr;
        }
        if (any) {
            const double R = double(float(c_.sigma)) * double(float(c_.sigma));
            const int n = F.dim();
            const Eigen::PartialPivLU<MX> lu(MX::Identity(n, n) + F.P * A / R);
            const VX dx = lu.solve(F.P * y / R);
            MX P = lu.solve(F.P);
            F.P = 0.5 * (P + P.transpose());
            F.apply(dx);
            ++updates;
        }
        F.clone();
        if (out >= 0) { F.drop(out); win_.erase(win_.begin() + out); }
        last = F.imu;
        for (std::size_t i = 1; i < m_.size(); ++i) last = midpoint(last, m_[i - 1], m_[i], F.ba, F.bg, g_);
        return true;
    }
};

// the same message for the reference, which counts time from the first message
inline void push(Estimator &ref, const sim::Stream &st, const sim::Event &o, double origin) {
    if (o.image) {
        auto &f = *st.img[o.index];
        std::vector<std::map<int, V2>> obs;
        for (auto &q : f.observes) { obs.emplace_back(); for (auto &z : q->norms) obs.back()[int(z.first)] = d(z.second); }
        ref.image(o.t - origin, f.ids, obs);
    } else {
        auto &u = *st.imu[o.index];
        ref.imu({o.t - origin, d(u.gyro), d(u.accel)});
    }
}
struct Apart { double p = 0, v = 0, q = 0, ba = 0, bg = 0; };
inline Apart apart(const sim::Pub &a, const Nav &n, const Filter &F) { return {(a.p - n.p).norm(), (a.v - n.v).norm(), angle(a.q, n.q), (a.ba - F.ba).norm(), (a.bg - F.bg).norm()}; }
// what the estimator publishes compared with the reference; empty: alike to single precision. Bounds are 4 to 20 times the largest differences seen.
inline std::string differs(const Estimator &ref, vio::Backend &b, Apart *most = nullptr, double loose = 1) {
    std::ostringstream e;
    e.precision(9);
    if ((b.status == vio::INITIALIZED) != ref.tracking) { e << "it is " << (ref.tracking ? "not " : "") << "tracking, the reference is " << (ref.tracking ? "" : "not"); return e.str(); }
    if (!ref.tracking) return "";
    auto p = sim::latest(b), u = sim::updated(b);
    if (!p.ok || !u.ok) return "nothing is published while tracking";
    if (!(std::fabs(p.t - ref.lastTime()) < 1e-6 && std::fabs(u.t - ref.originTime()) < 1e-6)) {
        e << "states of " << u.t << " and " << p.t << " s are published, the reference has " << ref.originTime() << " and " << ref.lastTime();
        return e.str();
    }
    for (int w = 0; w < 2; ++w) {
        const Nav &n = w ? ref.F.imu : ref.last;
        const sim::Pub &got = w ? u : p;
        const Apart k = apart(got, n, ref.F);
        if (most) { most->p = std::max(most->p, k.p); most->v = std::max(most->v, k.v); most->q = std::max(most->q, k.q); most->ba = std::max(most->ba, k.ba); most->bg = std::max(most->bg, k.bg); }
        if (!(k.p < 2e-3 * loose && k.v < 1e-3 * loose && k.q < 2e-4 * loose && k.ba < 2e-4 * loose * ref.biasRounding() && k.bg < 1e-4 * loose) && !most) {
            e << "the " << (w ? "updated" : "latest") << " state is p " << str(got.p) << " v " << str(got.v) << " q " << str(got.q) << " bias " << str(got.ba) << " " << str(got.bg) << ", the reference has p "
              << str(n.p) << " v " << str(n.v) << " q " << str(n.q) << " bias " << str(ref.F.ba) << " " << str(ref.F.bg);
            return e.str();
        }
    }
    return "";
}
} // namespace whole
