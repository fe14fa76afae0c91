// C08: correcting the origin of the queue and propagating again equals propagating from the corrected state.
// units: data_manager propagate
#include "imuref.hpp"
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
bool close(const Matrix &a, const Matrix &b, double rel) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    if (a.size() == 0) return true;
    return (a - b).cwiseAbs().maxCoeff() <= rel * std::max(1e-12f, b.cwiseAbs().maxCoeff());
}
void sameItem(const IMUPropagateQueueItem &a, const IMUPropagateQueueItem &b, const char *what, std::size_t i) {
    Nav x = nav(a.nominalState), y = nav(b.nominalState);
    PBT_CHECK(a.timeStamp == b.timeStamp && a.accel == b.accel && a.gyro == b.gyro, what << ": item " << i << " is another measurement");
    PBT_CHECK((x.p - y.p).norm() <= 1e-5 * (1 + y.p.norm()) && (x.v - y.v).norm() <= 1e-5 * (1 + y.v.norm()) && angle(x.q, y.q) < 1e-5,
              what << ": item " << i << " p " << str(x.p) << " v " << str(x.v) << " q " << str(x.q) << ", expected p " << str(y.p) << " v " << str(y.v) << " q " << str(y.q));
    PBT_CHECK(close(a.imuCov, b.imuCov, 1e-4), what << ": inertial covariance of item " << i << " differs");
    PBT_CHECK(close(a.imuExCamCov, b.imuExCamCov, 1e-4), what << ": cross covariance of item " << i << " differs (" << a.imuExCamCov.cols() << " and " << b.imuExCamCov.cols() << " columns)");
}

void history(pbt::Src &s, pbt::Ctx &x) {
    IMUFullState::SetGravityNorm(9.8f);
    int n = s.chance(1, 10) ? s.range(41, 400) : s.range(1, 40);
    auto run = imuRun(s, n + 20);
    double growth = 0;                                                 // the covariance may not overflow
    for (std::size_t i = 40; i < run.size(); ++i) {
        growth += std::log(1 + std::pow(std::max(run[i].w.norm(), run[i - 1].w.norm()) + 0.5, 2) * std::pow(run[i].t - run[i - 1].t, 2));
        if (growth > 12) { run.resize(i); n = std::min(n, int(i)); break; }
    }
    Queue z(s.range(1, 2));
    PropagateQueue &pq = z.q;
    pq.InitializeProcessNoiseMatrix(0.02f, 0.01f, 0.001f, 0.0005f);
    pq.bias_a = f(vec(s, 0.3)); pq.bias_g = f(vec(s, 0.2));
    pq.initState = IMUMotionState(f(vec(s, 10)), f(vec(s, 3)), f(rot(s)));
    PBT_CHECK(!pq.ResetOrigin(run[0].t, 0.01), "an empty queue has no origin");
    PBT_CHECK(pq.Repropagate(), "Repropagate on an empty queue");
    std::deque<Imu> model;
    std::size_t next = 0;
    auto feed = [&](int k) { while (k-- > 0 && next < run.size()) { auto &m = run[next++]; pq.Propagate(f(m.a), f(m.w), m.t); model.push_back(m); } };
    feed(n);
    auto deep = [](const PropagateQueue &q) { std::vector<IMUPropagateQueueItem> v; for (auto &i : q.items) v.push_back(*i); return v; };
    int resets = 0, corrected = 0, dropped = 0;
    std::size_t longest = 0;
    const int rounds = s.range(1, 5);
    for (int k = 0; k < rounds && !model.empty(); ++k) {
        // propagating again without a correction changes nothing
        auto before = deep(pq);
        PBT_CHECK(pq.Repropagate(), "Repropagate fails");
        for (std::size_t i = 0; i < before.size(); ++i) sameItem(*pq.items.at(i), before[i], "propagated again without a change", i);
        // a new origin: everything older than the time by more than the tolerance goes, and what is left before the nearest
        double dt = model.size() > 1 ? model[1].t - model[0].t : 0.005;
        double ts = s.chance(1, 12) ? model.back().t + s.real(0, 3) * dt : model[s.choice(model.size() - 1)].t + dt * s.pick<double>({0, 0.3, -0.3, 0.9, -0.9});
        double thr = dt * s.pick<double>({0.55, 1.001, 0.2, 3});
        bool unclear = false;
        for (auto &m : model) unclear = unclear || std::fabs(ts - m.t - thr) < 1e-9 * (1 + std::fabs(ts));
        for (std::size_t i = 1; i < model.size(); ++i) unclear = unclear || std::fabs(std::fabs(ts - model[i].t) - std::fabs(ts - model[i - 1].t)) < 1e-9 * (1 + std::fabs(ts));
        if (!unclear) {
            std::deque<Imu> keep;
            for (auto &m : model) if (!(ts - m.t > thr)) keep.push_back(m);
            while (keep.size() > 1 && std::fabs(keep[1].t - ts) < std::fabs(keep[0].t - ts)) keep.pop_front();
            before = deep(pq);
            bool ok = pq.ResetOrigin(ts, thr);
            x.desc << "origin " << std::to_string(ts) << " tolerance " << thr << " of " << model.size() << " items keeps " << keep.size() << "; ";
            PBT_CHECK(ok == !keep.empty(), "ResetOrigin returns " << ok << " with " << keep.size() << " items left");
            PBT_CHECK(pq.items.size() == keep.size(), "ResetOrigin leaves " << pq.items.size() << " items, " << keep.size() << " are not older than " << ts << " by more than " << thr << " nor before the nearest");
            for (std::size_t i = 0; i < keep.size(); ++i) sameItem(*pq.items[i], before[before.size() - keep.size() + i], "new origin", i);
            dropped += model.size() - keep.size();
            ++resets;
            model = keep;
            if (model.empty()) break;
        }
        // the correction an update makes at the origin
        auto &o = *pq.items.front();
        const int ext = 3 * s.range(0, 8);
        o.nominalState.p_wb += f(vec(s, 0.5));
        o.nominalState.v_wb += f(vec(s, 0.3));
        o.nominalState.q_wb = (o.nominalState.q_wb * f(rot(s, 0.2))).normalized();
        pq.bias_a += f(vec(s, 0.05)); pq.bias_g += f(vec(s, 0.02));
        MX L(15 + ext, 15 + ext);
        for (int i = 0; i < L.rows(); ++i) for (int j = 0; j < L.cols(); ++j) L(i, j) = s.real(-0.1, 0.1);
        MX P = L * L.transpose();
        o.imuCov = P.topLeftCorner(15, 15).cast<float>();
        o.imuExCamCov = P.topRightCorner(15, ext).cast<float>();
        pq.exCamCov = P.bottomRightCorner(ext, ext).cast<float>();
        PBT_CHECK(pq.Repropagate(), "Repropagate fails");
        ++corrected;
        longest = std::max(longest, model.size());
        // reference: a new queue that starts there
        Queue y(int(z.wm.extrinsics.size()));
        y.q.Q = pq.Q;
        y.q.bias_a = pq.bias_a; y.q.bias_g = pq.bias_g;
        y.q.initState = o.nominalState;
        for (std::size_t i = 0; i < model.size(); ++i) {
            y.q.Propagate(f(model[i].a), f(model[i].w), model[i].t);
            if (i == 0) { auto &b = *y.q.items.front(); b.imuCov = o.imuCov; b.imuExCamCov = o.imuExCamCov; y.q.exCamCov = pq.exCamCov; }
        }
        PBT_CHECK(pq.items.size() == model.size(), "Repropagate changed the number of items");
        for (std::size_t i = 0; i < model.size(); ++i) sameItem(*pq.items[i], *y.q.items[i], "propagated again", i);
        PBT_CHECK(pq.exCamCov == y.q.exCamCov, "Repropagate changed the covariance of the window");
        // and goes on from there
        if (s.chance(1, 2)) {
            std::size_t old = next;
            feed(s.range(1, 4));
            for (std::size_t i = old; i < next; ++i) y.q.Propagate(f(run[i].a), f(run[i].w), run[i].t);
            for (std::size_t i = 0; i < model.size(); ++i) sameItem(*pq.items[i], *y.q.items[i], "propagated on", i);
        }
    }
    x.label("items dropped", dropped > 0);
    x.label("more than 100 items propagated again", longest > 100);
    x.label("queue emptied", model.empty());
    x.label("corrected", corrected > 0);
    x.nontrivial(dropped > 0 && corrected > 0 && model.size() > 2);
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C08",
            "random histories of measurements, origin resets and corrections on one queue, compared item by item with a queue started from the corrected state; "
            "non-trivial when items were dropped, a correction applied and at least three items propagated again",
            {"time stamps within 1e-9 of the tolerance, or as far before as after the time, may be decided either way"},
            {{"history", history, 100000, 1500000}}};
}
