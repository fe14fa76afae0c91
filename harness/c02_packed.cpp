// C02: packed pops deliver, for each features message, exactly the IMU data of the interval that ends at it.
// variant: san
// fuzz: 120
// units: data_manager
#include "common.hpp"
#include <data_loader.hpp>
#include <deque>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
struct I { double t; V3 g, a; };
struct F { double t; int tag; };

void history(pbt::Src &s, pbt::Ctx &x) {
    DataLoader l;
    const double period = s.pick<double>({0.005, 0.01, 0.0078125, 0.02});
    l.imuPeriod = period;
    std::deque<I> imu;               // oracle: samples not yet consumed, starting with the boundary sample
    std::deque<F> feat;
    double offset = NAN, lastI = -INFINITY, lastF = -INFINITY, ci = s.pick<double>({0, 10, 1e6}), cf = ci;
    if (s.chance(1, 3)) cf = ci - period * s.range(1, 12);            // images start before the IMU
    if (s.chance(1, 3)) cf = ci + period * s.range(1, 30);
    int bundles = 0, interpolated = 0, dropped = 0, waits = 0, chained = 0, tag = 0;
    std::size_t longest = 0;
    const double ratio = s.pick<double>({4, 5.3, 10, 1, 0.4, 20});     // images per IMU period
    std::shared_ptr<CombinedMessage> out;
    const bool dense = s.chance(1, 12);                               // up to hundreds of samples between two images
    const int n = dense ? s.range(2, 15) : s.range(2, 150);
    auto pop = [&] {
        if (s.chance(1, 5)) out = nullptr;
        bool expect = false, drop = false, skip = false;
        if (!imu.empty() && !feat.empty()) {
            const double e1 = imu.back().t - feat.front().t, e2 = imu.front().t - feat.front().t;
            if ((std::fabs(e1) < 1e-7 && e1 != 0) || (std::fabs(e2) < 1e-7 && e2 != 0)) skip = true;  // rounding decides
            if (e1 > 0) { if (e2 < 0) expect = true; else drop = true; }
        }
        if (skip) throw pbt::Discard{};
        x.desc << "pop; ";
        const bool res = l.PopPackedMessage(out);
        PBT_CHECK(res == expect, "packed pop returned " << res << ": IMU waiting from " << (imu.empty() ? NAN : imu.front().t) << " to " << (imu.empty() ? NAN : imu.back().t)
                  << ", oldest features " << (feat.empty() ? NAN : feat.front().t));
        if (!res) {
            PBT_CHECK(out == nullptr || (out->featMeas == nullptr && out->imuMeas.empty()), "a packed pop that returned false delivered data");
            if (drop) { feat.pop_front(); ++dropped; } else ++waits;
            return;
        }
        PBT_CHECK(out && out->featMeas, "packed pop without features");
        const F fm = feat.front();
        feat.pop_front();
        PBT_CHECK(std::fabs(out->featMeas->timeStamp - fm.t) < 1e-6 && out->featMeas->ids.size() == 1 && int(out->featMeas->ids[0]) == fm.tag,
                  "packed pop delivers features @" << out->featMeas->timeStamp << ", expected the oldest @" << fm.t);
        std::vector<I> want;
        while (imu.front().t <= fm.t) { want.push_back(imu.front()); imu.pop_front(); }
        bool atImage = std::fabs(want.back().t - fm.t) <= 1e-6;
        if (std::fabs(std::fabs(want.back().t - fm.t) - 1e-6) < 2e-7) throw pbt::Discard{};
        if (!atImage) {
            const I a = want.back(), b = imu.front();
            const double r = (fm.t - a.t) / (b.t - a.t);
            want.push_back({fm.t, a.g + r * (b.g - a.g), a.a + r * (b.a - a.a)});
            ++interpolated;
        }
        imu.push_front(want.back());
        PBT_CHECK(out->imuMeas.size() == want.size(), "bundle of features @" << fm.t << " has " << out->imuMeas.size() << " IMU samples, expected " << want.size()
                  << " covering " << want.front().t << " to " << want.back().t);
        for (std::size_t k = 0; k < want.size(); ++k) {
            PBT_CHECK(out->imuMeas[k] != nullptr, "null IMU message");
            const IMUMessage &m = *out->imuMeas[k];
            PBT_CHECK(std::fabs(m.timeStamp - want[k].t) < 1e-6, "IMU sample " << k << " of the bundle @" << fm.t << " has time stamp " << m.timeStamp << ", expected " << want[k].t);
            PBT_CHECK((d(m.gyro) - want[k].g).norm() < 1e-3 && (d(m.accel) - want[k].a).norm() < 1e-3, "IMU sample " << k << " @" << want[k].t << " of the bundle @" << fm.t
                      << ": gyro " << str(d(m.gyro)) << " accel " << str(d(m.accel)) << ", expected " << str(want[k].g) << " " << str(want[k].a));
        }
        longest = std::max(longest, want.size());
        if (bundles++) ++chained;
    };
    for (int k = 0; k < n; ++k) {
        int op = s.range(0, 9);
        if (op < 6) for (int burst = dense ? s.range(1, 300) : 1; burst > 0; --burst) {
            ci += period * (s.chance(1, 8) ? s.real(0.2, 4) : 1.0);
            I m{ci, vec(s, 5), vec(s, 20)};
            m.g = d(f(m.g)); m.a = d(f(m.a));
            double t = ci;
            if (s.chance(1, 15)) t = ci - period * s.range(1, 5);       // a stale sample
            l.PushIMUMessage(std::make_shared<IMUMessage>(f(m.g), f(m.a), t));
            if (std::isnan(offset)) offset = t;
            if (t - offset > lastI) { m.t = lastI = t - offset; imu.push_back(m); }
            if (!dense || burst == 1) x.desc << (dense ? "imu up to @" : "imu @") << t - offset << "; ";
        } else if (op < 8) {
            cf += period * (dense ? 40 * ratio : ratio) * (s.chance(1, 4) ? s.real(0.3, 2) : 1.0);
            double t = cf;
            if (s.chance(1, 10)) t += s.pick<double>({5e-7, -5e-7, 3e-6, -3e-6});
            ++tag;
            std::unordered_map<uint32_t, Vector2> nm;
            nm[0] = Vector2(tag, tag);
            l.PushFeaturesMessage(std::make_shared<FeaturesMessage>(std::vector<uint32_t>{uint32_t(tag)},
                std::vector<std::shared_ptr<FeatureObserve>>{std::make_shared<FeatureObserve>(nm)}, std::vector<uint8_t>{0}, t));
            if (std::isnan(offset)) offset = t;
            if (t - offset > lastF) { lastF = t - offset; feat.push_back({t - offset, tag}); }
            x.desc << "features @" << t - offset << "; ";
        } else {
            pop();
        }
    }
    for (int k = 0; k < 400 && !imu.empty() && !feat.empty() && imu.back().t > feat.front().t + 1e-7; ++k) pop();
    x.label("interpolated end sample", interpolated > 0);
    x.label("bundle of more than 100 samples", longest > 100);
    x.label("chained bundles", chained > 0);
    x.label("image without IMU before it dropped", dropped > 0);
    x.label("waits for IMU", waits > 0);
    x.nontrivial(chained > 0 && interpolated > 0);
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C02",
            "random interleavings of IMU samples, images and packed pops at several image/IMU rate ratios; non-trivial when at least two bundles followed each other and one "
            "ended in an interpolated sample",
            {"messages are non-null with finite time stamps", "stamps that rounding alone decides are skipped"},
            {{"history", history, 250000, 5000000}}};
}
