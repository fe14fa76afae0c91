// C20: initialisation happens at the image at which it can, and what is published belongs to the messages received.
#include "sim.hpp"
#include <cstdlib>
#include <set>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
// The start of a stream: images that share few or many tracks, measurements the attitude can not start from, lost samples.
struct Start {
    sim::Scenario c;
    sim::Stream st;
    std::vector<int> shared;                                          // usable tracks an image shares with the one before
    std::vector<std::string> plan;
    double level = -1;                                                // time of the first measurement fit to level with
};

Start make(pbt::Src &s, pbt::Ctx &x) {
    Start r;
    r.c = sim::scenario(s, sim::EXACT, 1.6);
    auto &c = r.c;
    c.imgShift = s.chance(1, 2) ? 0 : s.real(-0.4, 0.4) * c.period();
    c.mot.still = 5;                                                  // at rest or in uniform motion, maybe turning about the vertical
    c.landmarks = 900; c.perFrame = s.chance(1, 3) ? s.range(14, 24) : 90;
    const bool mono = s.chance(1, 10);
    if (mono) c.cfg.ext.resize(1);
    c.firstImage = s.range(0, 3 * c.imgEvery);
    if (c.firstImage == 0 && c.imgShift < 0) c.imgShift = 0;
    sim::describe(x, c, sim::EXACT);
    auto st = sim::simulate(c);
    const double dt = c.period();
    // measurements before the rig has settled: their norm is not that of gravity
    const int shaky = s.chance(1, 2) ? 0 : s.range(1, int(0.5 / dt));
    for (int i = 0; i < shaky && i < int(st.imu.size()); ++i) {
        const V3 a = d(st.imu[i]->accel) - c.cfg.ba;
        st.imu[i]->accel = f(V3(a * (1 + s.pick<double>({0.08, -0.08, 0.5, 2, -0.9}) / a.norm()) + c.cfg.ba));
    }
    r.level = c.t0 + shaky * dt;
    // tracks of every image
    std::uint32_t fresh = 100000;
    std::map<std::uint32_t, std::uint32_t> name;                       // of the simulated tracks
    std::map<std::uint32_t, int> before;                               // cameras of the tracks of the image before
    std::set<std::size_t> lost;
    bool good = false;
    for (std::size_t k = 0; k < st.img.size(); ++k) {
        auto &m = *st.img[k];
        const int kind = good ? 0 : s.range(0, 7);
        // 0-2: everything goes on; 3: only some tracks go on; 4: many features seen by one camera; 5: all tracks are new;
        // 6: as 5, and no measurement near the image; 7: an empty image
        std::string p = "goes on";
        int keep = 1000, single = 0;
        if (kind == 3) { keep = s.range(0, 9); p = "keeps " + std::to_string(keep); }
        if (kind == 4) { single = s.range(1, 3); p = single == 1 ? "first camera only" : single == 2 ? "last camera only" : "cameras mixed"; }
        if (kind >= 5) { keep = 0; p = "new tracks"; }
        if (kind == 6 && k > 0) {
            const double t = m.timeStamp;
            for (std::size_t i = 0; i < st.imu.size(); ++i) if (std::fabs(st.imu[i]->timeStamp - t) < 0.58 * dt) lost.insert(i);
            p = "new tracks, no measurement near";
        }
        if (kind == 7) { m.ids.clear(); m.observes.clear(); m.flag.clear(); p = "empty"; }
        std::map<std::uint32_t, int> now;
        int n = 0;
        for (std::size_t i = 0; i < m.ids.size(); ++i) {
            const std::uint32_t t = m.ids[i];
            bool cont = name.count(t) && before.count(name[t]) > 0;
            if (cont && keep-- <= 0) { name.erase(t); cont = false; }
            if (!name.count(t) || !cont) name[t] = fresh++;
            m.ids[i] = name[t];
            int cams = 0;
            auto &norms = m.observes[i]->norms;
            if (single == 1 || (single == 3 && s.chance(1, 3))) { auto z = norms[0]; norms.clear(); norms[0] = z; }
            else if (single == 2 || (single == 3 && s.chance(1, 3))) { auto z = norms[std::uint32_t(c.cfg.ext.size() - 1)]; norms.clear(); norms[std::uint32_t(c.cfg.ext.size() - 1)] = z; }
            cams = int(norms.size());
            now[m.ids[i]] = cams;
            if (cont && before[m.ids[i]] >= 2 && norms.count(0)) ++n;
        }
        before = now;
        r.shared.push_back(n);
        r.plan.push_back(p);
        x.desc << "image " << k << " at " << m.timeStamp << ": " << p << ", " << n << " shared; ";
        if (n >= 10) good = true;                                      // from here on tracking may run, and is left alone
        if (n >= 10 && n < 14) throw pbt::Discard{};
    }
    if (!lost.empty() && !st.imu.empty()) {
        std::vector<std::shared_ptr<IMUMessage>> kept;
        for (std::size_t i = 0; i < st.imu.size(); ++i) if (!lost.count(i)) kept.push_back(st.imu[i]);
        st.imu = kept;
    }
    st.sortEvents();
    r.st = st;
    x.desc << shaky << " measurements before it has settled\n";
    x.label("mono", mono);
    x.label("shaky", shaky > 0);
    x.label("lost measurements", !lost.empty());
    return r;
}

void start(pbt::Src &s, pbt::Ctx &x) {
    Start S = make(s, x);
    auto &c = S.c;
    std::srand(1);
    Backend b;
    PBT_CHECK(sim::configure(b, c.cfg), "the configuration is not accepted");
    PBT_CHECK(!sim::latest(b).ok && !sim::updated(b).ok && b.status == NEED_INIT, "a state is published before any message");
    const double origin = S.st.order.front().t, dt = c.period();
    std::vector<double> imu;                                           // received
    int prev = -1, init = -1, attempts = 0, after = 0, waiting = 0, idle = 0;
    double ti = 0;
    bool only = true;                                                  // the image before is the only one in the window
    int restarts = 0;
    sim::Pub held;
    std::vector<std::size_t> resets;
    for (int i = s.chance(1, 2) ? s.range(1, 3) : 0; i > 0; --i) resets.push_back(s.choice(S.st.order.size() - 1));
    for (auto r : resets) x.desc << "reset before message " << r << "; ";
    const double eps = 1e-6 + 1e-12 * std::fabs(c.t0);
    for (std::size_t at = 0; at < S.st.order.size(); ++at) {
        auto &o = S.st.order[at];
        if (waiting == 0 && std::count(resets.begin(), resets.end(), at)) {
            b.Reset();
            PBT_CHECK(b.status == NEED_INIT, "Reset leaves the status " << int(b.status));
            if (init >= 0) { init = -1; only = false; ++restarts; }
        }
        if (!o.image) imu.push_back(o.t);
        const bool lateStep = s.chance(1, 4) && !o.image;              // the step is run with the next message
        sim::push(b, S.st, o);
        ++waiting;
        if (lateStep) continue;
        for (; waiting > 0; --waiting) b.RunOnce();                    // a step may fail, and still be one
        auto p = sim::latest(b), u = sim::updated(b);
        // a step without a message waiting, and asking again, change nothing
        if (s.chance(1, 8)) {
            const auto status = b.status;
            for (int i = s.range(0, 2); i > 0; --i) PBT_CHECK(!b.RunOnce(), "a step succeeds though no message is waiting");
            PBT_CHECK(b.status == status && sim::same(p, sim::latest(b)) && sim::same(u, sim::updated(b)), "a step without a message, or publishing, changes the state");
            ++idle;
        }
        if (o.image) {
            if (init < 0 && prev >= 0) {
                // the attitude at the image before is known when a measurement after levelling lies next to it
                const double tp = S.st.img[prev]->timeStamp;
                double near = INFINITY;
                for (double t : imu) if (t >= S.level - 1e-9) near = std::min(near, std::fabs(t - tp));
                const bool can = only && near < 0.5 * dt && S.shared[o.index] >= 14 && c.cfg.ext.size() >= 2, cannot = !only || near > 0.56 * dt || S.shared[o.index] < 10 || c.cfg.ext.size() < 2;
                ++attempts;
                if (can) {
                    PBT_CHECK(b.status == INITIALIZED, "image " << o.index << " does not initialise, though the image before has an attitude and " << S.shared[o.index] << " tracks are shared");
                    init = o.index;
                    ti = tp;
                } else if (cannot) PBT_CHECK(b.status == NEED_INIT, "image " << o.index << " initialises with " << S.shared[o.index] << " shared tracks and an attitude " << near << " s away");
                else throw pbt::Discard{};
            }
            prev = o.index;
            only = true;                                               // if it did not initialise, it is alone now
        }
        if (init < 0) {
            PBT_CHECK(b.status == NEED_INIT, "tracking starts without two images");
            PBT_CHECK(restarts > 0 || (!p.ok && !u.ok), "a state is published before initialisation");
            continue;
        }
        PBT_CHECK(b.status == INITIALIZED, "tracking was lost at " << o.t - origin << " s");
        PBT_CHECK(p.ok && u.ok, "no state is published though tracking runs");
        PBT_CHECK(std::fabs(p.t - (imu.back() - origin)) < eps, "the latest state is of " << p.t << " s, the latest measurement of " << imu.back() - origin << " s");
        if (!o.image) PBT_CHECK(sim::same(u, held), "a measurement changes the updated state of " << held.t << " s " << str(held.p) << " " << str(held.v) << " " << str(held.q) << " to one of " << u.t << " s " << str(u.p) << " " << str(u.v) << " " << str(u.q));
        held = u;
        const double timg = S.st.img[prev]->timeStamp;
        double near = INFINITY;
        for (double t : imu) if (t <= timg + dt) near = std::min(near, std::fabs(t - timg));
        if (o.image) {
            double least = INFINITY;
            for (double t : imu) least = std::min(least, std::fabs(t - timg));
            PBT_CHECK(std::fabs(std::fabs(u.t - (timg - origin)) - least) < eps, "the updated state is of " << u.t << " s, the image of " << timg - origin << " s, the nearest measurement " << least << " s from it");
            bool real = false;
            for (double t : imu) real = real || std::fabs(t - origin - u.t) < eps;
            PBT_CHECK(real, "no measurement was made at " << u.t << " s, the time of the updated state");
            // the frame before the initialising image is the origin, levelled, with the configured biases
            for (auto *w : {&p, &u}) {
                const double tt = w->t + origin - c.t0, t0 = ti - c.t0;
                const V3 dp = c.mot.p(tt) - c.mot.p(t0);
                const double away = std::fabs(w->p.norm() - dp.norm()), up = std::fabs(w->p.z() - dp.z());
                const V3 g = w->q.conjugate() * V3(0, 0, 1), h = c.mot.q(tt).conjugate() * V3(0, 0, 1);
                const double tilt = std::atan2(g.cross(h).norm(), g.dot(h)), mis = c.imgShift ? 0.5 * dt : 0;
                const double slack = 3 * mis * (c.mot.v0.norm() + 0.3) + 0.002, turn = std::fabs(c.mot.yawRate) * mis * 4 + 0.003;
                PBT_CHECK(away < slack + 0.02 * dp.norm() + turn * 0.5 && up < slack + 0.02 * dp.norm() + turn * 0.5, "state " << str(w->p) << " at " << w->t << " s, the true way from the first frame is " << str(dp));
                PBT_CHECK(tilt < 0.004 + turn, "the state at " << w->t << " s is tilted by " << tilt << " rad");
                PBT_CHECK(std::fabs((w->q.norm()) - 1) < 1e-3, "attitude " << str(w->q));
                PBT_CHECK((w->ba - c.cfg.ba).norm() < 5e-3 && (w->bg - c.cfg.bg).norm() < 5e-3, "biases " << str(w->ba) << " " << str(w->bg) << " shortly after the start, configured are " << str(c.cfg.ba) << " " << str(c.cfg.bg));
            }
            ++after;
        }
    }
    x.label("initialised", init >= 0);
    x.label("initialised after a reset", init >= 0 && restarts > 0);
    x.label("idle steps", idle > 0);
    x.label("at a later image", init > 1);
    x.label("after refused images", init >= 0 && attempts > 1);
    x.nontrivial(attempts > 1 || (init >= 0 && after > 2 && init > 0 && S.level > c.t0));
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C20",
            "streams that start at rest or in uniform motion with images that share many, few or no tracks, are seen by one camera, are empty or have no measurement next to them, and with measurements before the rig "
            "has settled; a model predicts the image that initialises, states and stamps are checked after every message; non-trivial when an image had to be refused or the attitude came late; resets at any time, after which the second image initialises",
            {"between 10 and 13 shared tracks either outcome is right", "images within 0.4 periods of a measurement that has arrived before them, or before the next one"},
            {{"start", start, 900, 20000}}};
}
