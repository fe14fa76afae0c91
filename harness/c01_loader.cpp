// C01: the data loader delivers accepted messages exactly once, in time order, from a zero-based time line.
// variant: san
// fuzz: 120
// units: data_manager
#include "common.hpp"
#include <data_loader.hpp>
#include <deque>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
struct M { double t; int tag; bool feat; };

struct Model {                      // reference model: two sorted queues
    std::deque<M> imu, feat;
    double offset = NAN, lastImu = -INFINITY, lastFeat = -INFINITY;
    void clear() { *this = Model(); }
};

std::shared_ptr<IMUMessage> imuMsg(double t, int tag) {
    return std::make_shared<IMUMessage>(Vector3(tag, tag * 0.5f, -tag), Vector3(-tag, tag * 2, tag * 3), t);
}
std::shared_ptr<FeaturesMessage> featMsg(double t, int tag, int n) {
    std::vector<uint32_t> ids;
    std::vector<std::shared_ptr<FeatureObserve>> obs;
    std::vector<uint8_t> flag;
    for (int i = 0; i < n; ++i) {
        ids.push_back(tag * 100 + i);
        std::unordered_map<uint32_t, Vector2> norms;
        norms[0] = Vector2(tag, i);
        norms[1] = Vector2(-tag, -i);
        obs.push_back(std::make_shared<FeatureObserve>(norms));
        flag.push_back(0);
    }
    return std::make_shared<FeaturesMessage>(ids, obs, flag, t);
}
void checkImu(const IMUMessage &m, const M &e) {
    PBT_CHECK(std::fabs(m.timeStamp - e.t) < 1e-6, "IMU message tag " << e.tag << " delivered with time stamp " << m.timeStamp << ", expected " << e.t);
    int tag = e.tag;
    PBT_CHECK(m.gyro == Vector3(tag, tag * 0.5f, -tag) && m.accel == Vector3(-tag, tag * 2, tag * 3),
              "IMU message at " << e.t << " delivered with other contents than pushed (tag " << tag << ")");
}
void checkFeat(const FeaturesMessage &m, const M &e, int n) {
    PBT_CHECK(std::fabs(m.timeStamp - e.t) < 1e-6, "features message tag " << e.tag << " delivered with time stamp " << m.timeStamp << ", expected " << e.t);
    PBT_CHECK(int(m.ids.size()) == n && int(m.observes.size()) == n, "features message tag " << e.tag << " has " << m.ids.size() << " features, pushed " << n);
    for (int i = 0; i < n; ++i) {
        PBT_CHECK(m.ids[i] == uint32_t(e.tag * 100 + i), "feature ids differ");
        Vector2 a, b, c;
        PBT_CHECK(m.observes[i]->GetNorm(0, a) && m.observes[i]->GetNorm(1, b) && !m.observes[i]->GetNorm(2, c), "observations lost");
        PBT_CHECK(a == Vector2(e.tag, i) && b == Vector2(-e.tag, -i), "observations differ");
    }
}

void history(pbt::Src &s, pbt::Ctx &x) {
    const int loaders = s.range(1, 2);
    std::vector<DataLoader> dl(loaders);
    std::vector<Model> model(loaders);
    const double period = s.pick<double>({0.005, 0.01, 0.0025, 0.0078125, 0.1});
    for (auto &l : dl) l.imuPeriod = period;
    const double origin = s.pick<double>({0, 0, 100, 1.6e9, -50});
    std::vector<double> clockI(loaders, origin), clockF(loaders, origin);
    std::map<int, int> featN;
    int tag = 0, bundles = 0, rejected = 0, clears = 0, pops = 0, mismatched = 0;
    const int n = s.chance(1, 40) ? s.range(300, 900) : s.range(1, 120);   // long ones outlive the blocks of a queue
    std::vector<std::shared_ptr<CombinedMessage>> out(loaders);
    for (int k = 0; k < n; ++k) {
        const int w = loaders == 1 ? 0 : s.range(0, 1);
        const int op = s.range(0, 99);
        Model &m = model[w];
        DataLoader &l = dl[w];
        auto stamp = [&](std::vector<double> &c, double step) {
            // mostly increasing; sometimes equal, slightly or far in the past, a jump ahead
            int kind = s.range(0, 19);
            double t;
            if (kind < 14) t = c[w] + step * s.pick<double>({1, 1, 1, 0.999, 1.001, 0.5, 2});
            else if (kind == 14) t = c[w];
            else if (kind == 15) t = c[w] - step * s.pick<double>({0.5, 1, 3, 100});
            else if (kind == 16) t = c[w] + step * 50;
            else t = c[w] + step * s.real(0.01, 3);
            if (t > c[w] || kind == 15) c[w] = t;                 // after a step back the source may go on from there
            return t;
        };
        if (op < 35) {
            double t = stamp(clockI, period);
            ++tag;
            x.desc << "[" << w << "] imu " << tag << " @" << std::to_string(t) << "; ";
            auto msg = imuMsg(t, tag);
            l.PushIMUMessage(msg);
            if (std::isnan(m.offset)) m.offset = t;
            double r = t - m.offset;
            if (r > m.lastImu) { m.imu.push_back({r, tag, false}); m.lastImu = r; } else ++rejected;
        } else if (op < 55) {
            double t = s.chance(1, 3) ? std::max(clockF[w], clockI[w] + period * s.pick<double>({0, 0, -0.5, 0.5, -1, 1, -0.999, 0.999, -1.001})) : stamp(clockF, period * 4);
            if (t > clockF[w]) clockF[w] = t;
            ++tag;
            int nf = s.range(0, 3);
            featN[tag] = nf;
            auto msg = featMsg(t, tag, nf);
            const bool bad = s.chance(1, 12);
            if (bad) { msg->ids.push_back(7); ++mismatched; }     // ids and observations disagree: must not be delivered
            x.desc << "[" << w << "] feat " << tag << (bad ? " (mismatched)" : "") << " @" << std::to_string(t) << "; ";
            bool res = l.PushFeaturesMessage(msg);
            if (bad) { PBT_CHECK(!res, "a features message whose ids and observations differ in number was accepted"); continue; }
            if (std::isnan(m.offset)) m.offset = t;
            double r = t - m.offset;
            if (r > m.lastFeat) { m.feat.push_back({r, tag, true}); m.lastFeat = r; } else ++rejected;
        } else if (op < 97) {
            ++pops;
            if (s.chance(1, 4)) out[w] = nullptr;
            x.desc << "[" << w << "] pop; ";
            const bool res = l.PopOneMessage(out[w]);
            const bool any = !m.imu.empty() || !m.feat.empty();
            PBT_CHECK(res == any, "PopOneMessage returned " << res << " with " << m.imu.size() << " IMU and " << m.feat.size() << " features messages waiting");
            PBT_CHECK(out[w] != nullptr, "PopOneMessage left the output null");
            if (!res) {
                PBT_CHECK(out[w]->featMeas == nullptr && out[w]->imuMeas.empty(), "an empty pop delivered a message");
                continue;
            }
            // a distance of one period up to rounding may be decided either way: then accept what was done
            bool takeFeat = !m.feat.empty() && (m.imu.empty() || m.feat.front().t <= m.imu.front().t);
            if (!m.feat.empty() && !m.imu.empty() && std::fabs(m.feat.front().t - m.imu.front().t) < 1e-6 && m.feat.front().t != m.imu.front().t)
                takeFeat = out[w]->featMeas != nullptr;
            bool takeImu = !m.imu.empty() && (!takeFeat || m.imu.front().t - m.feat.front().t < period);
            if (takeFeat && !m.imu.empty() && std::fabs(m.imu.front().t - m.feat.front().t - period) < 1e-6) takeImu = !out[w]->imuMeas.empty();
            PBT_CHECK((out[w]->featMeas != nullptr) == takeFeat, "pop " << (takeFeat ? "does not deliver" : "delivers") << " a features message; oldest waiting: IMU "
                      << (m.imu.empty() ? NAN : m.imu.front().t) << ", features " << (m.feat.empty() ? NAN : m.feat.front().t) << ", period " << period);
            PBT_CHECK(out[w]->imuMeas.size() == (takeImu ? 1u : 0u), "pop delivers " << out[w]->imuMeas.size() << " IMU messages; oldest waiting: IMU "
                      << (m.imu.empty() ? NAN : m.imu.front().t) << ", features " << (m.feat.empty() ? NAN : m.feat.front().t) << ", period " << period);
            if (takeFeat) { checkFeat(*out[w]->featMeas, m.feat.front(), featN[m.feat.front().tag]); m.feat.pop_front(); }
            if (takeImu) { PBT_CHECK(out[w]->imuMeas[0] != nullptr, "null IMU message"); checkImu(*out[w]->imuMeas[0], m.imu.front()); m.imu.pop_front(); }
            if (takeFeat && takeImu) ++bundles;
        } else {
            x.desc << "[" << w << "] clear; ";
            ++clears;
            l.Clear();
            m.clear();
            if (s.chance(1, 2)) { clockI[w] = clockF[w] = origin; }   // a new recording, from its own start
        }
    }
    // drain: nothing is lost, nothing is delivered twice
    for (int w = 0; w < loaders; ++w) {
        std::size_t left = model[w].imu.size() + model[w].feat.size(), got = 0;
        std::shared_ptr<CombinedMessage> o;
        double last = -INFINITY;
        while (dl[w].PopOneMessage(o)) {
            double t = o->featMeas ? o->featMeas->timeStamp : o->imuMeas.at(0)->timeStamp;
            PBT_CHECK(t >= last - 1e-6, "draining the loader goes back in time from " << last << " to " << t);
            last = t;
            got += o->imuMeas.size() + (o->featMeas ? 1 : 0);
            PBT_CHECK(got <= left, "more messages delivered than accepted");
            for (auto &i : o->imuMeas) { checkImu(*i, model[w].imu.at(0)); model[w].imu.pop_front(); }
            if (o->featMeas) { checkFeat(*o->featMeas, model[w].feat.at(0), featN[model[w].feat[0].tag]); model[w].feat.pop_front(); }
        }
        PBT_CHECK(got == left, "draining delivers " << got << " of " << left << " accepted messages");
    }
    x.label("bundled pop", bundles > 0);
    x.label("rejected push", rejected > 0);
    x.label("clear", clears > 0);
    x.label("mismatched features message", mismatched > 0);
    x.label("two loaders", loaders == 2);
    x.nontrivial(bundles > 0 && (rejected > 0 || clears > 0 || loaders == 2));
}

// the containers keep what they are given
void containers(pbt::Src &s, pbt::Ctx &x) {
    int a = s.range(0, 6), b = s.chance(1, 2) ? a : s.range(0, 6);
    std::vector<uint32_t> ids;
    std::vector<std::shared_ptr<FeatureObserve>> obs;
    for (int i = 0; i < a; ++i) ids.push_back(uint32_t(s.choice(0xffffffffu)));
    std::vector<std::map<uint32_t, Vector2>> want;
    for (int i = 0; i < b; ++i) {
        std::unordered_map<uint32_t, Vector2> m;
        want.emplace_back();
        for (int c = s.range(0, 4); c > 0; --c) { uint32_t cam = uint32_t(s.choice(7)); Vector2 v(float(s.real(-2, 2)), float(s.real(-2, 2))); m[cam] = v; want.back()[cam] = v; }
        obs.push_back(std::make_shared<FeatureObserve>(m));
    }
    double t = s.real(-1e9, 1e9);
    FeaturesMessage fm(ids, obs, std::vector<uint8_t>(a, 1), t);
    x.desc << a << " ids, " << b << " observations";
    if (a != b) {
        PBT_CHECK(fm.ids.empty() && fm.observes.empty(), "a features message built from " << a << " ids and " << b << " observations keeps inconsistent data");
    } else {
        PBT_CHECK(fm.ids == ids && fm.observes.size() == obs.size() && fm.timeStamp == t, "a features message lost its data");
        for (int i = 0; i < b; ++i) for (uint32_t c = 0; c < 9; ++c) {
            Vector2 v(77, 77);
            bool has = want[i].count(c);
            PBT_CHECK(fm.observes[i]->GetNorm(c, v) == has, "observation of camera " << c << " " << (has ? "lost" : "invented"));
            if (has) PBT_CHECK(v == want[i][c], "observation of camera " << c << " altered");
        }
    }
    // a message filled field by field, whatever its arrays' lengths, can be printed and stays as it is
    {
        FeaturesMessage raw;
        raw.ids = ids;
        raw.observes = obs;
        raw.timeStamp = t;
        raw.Information();
        PBT_CHECK(raw.ids == ids && raw.observes == obs && raw.timeStamp == t, "printing a message changes it");
    }
    auto fp = std::make_shared<FeaturesMessage>(fm);
    auto im = imuMsg(t, 3);
    CombinedMessage one(fp, im), many(fp, std::vector<std::shared_ptr<IMUMessage>>(a, im));
    PBT_CHECK(one.featMeas == fp && one.imuMeas.size() == 1 && one.imuMeas[0] == im && many.imuMeas.size() == std::size_t(a), "combined message");
    one.Information();
    many.Information();
    PBT_CHECK(one.featMeas == fp && one.imuMeas.size() == 1 && many.imuMeas.size() == std::size_t(a) && fp->ids.size() == fm.ids.size(), "printing changes a combined message");
    if (b > 0) {
        FeatureObserve copy = *obs[0];
        copy.Clear();
        PBT_CHECK(copy.norms.empty() && obs[0]->norms.size() == want[0].size(), "clearing an observation");
    }
    one.Clear();
    one.Information();
    PBT_CHECK(one.featMeas == nullptr && one.imuMeas.empty(), "combined message not cleared");
    fp->Clear();
    PBT_CHECK(fp->ids.empty() && fp->observes.empty() && fp->flag.empty(), "features message not cleared");
    x.label("mismatched", a != b);
    x.nontrivial(a > 0 && b > 0);
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C01",
            "history: random push / pop / clear sequences on one or two loaders, non-trivial when a features message was bundled with an IMU message and a push was rejected, "
            "a loader cleared or two loaders interleaved; containers: non-empty ids and observations",
            {"messages are non-null with finite time stamps", "time stamps closer than 1e-6 s to a decision boundary may be decided either way"},
            {{"history", history, 250000, 5000000}, {"containers", containers, 50000, 200000}}};
}
