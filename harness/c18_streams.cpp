// variant: ub
// fuzz: 120
// C18: whatever messages arrive, every call returns without memory errors, and what is published makes sense.
#include "sim.hpp"
#include <cstdlib>
#include <limits>
#include <set>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
enum Fault { DROP, TWICE, LATE, SWAP, JUMP, HIT, FEATURES, OUTLIERS, FEWER_IDS, FEWER_OBSERVES, FLAGS, EMPTY, BLIND, SAME_ID, ODD_ID, ONE_CAMERA, FROZEN, RESET, BURST, NEW_TRACKS, MORE_CAMERAS, FAULTS };
const char *names[] = {"dropped", "repeated", "late", "swapped", "jump in time", "shaken", "wild features", "outliers", "fewer ids", "fewer observations", "flags missing", "empty image", "no camera", "same id", "odd id",
                       "one camera", "frozen image", "reset", "burst lost", "new tracks", "more cameras"};
struct Msg { bool image = false; std::shared_ptr<IMUMessage> imu; std::shared_ptr<FeaturesMessage> img; bool reset = false; };

sim::Scenario base(pbt::Src &s) {
    sim::Scenario c = sim::scenario(s, s.pick<sim::Kind>({sim::EXACT, sim::BIAS_NOISE, sim::NOISE, sim::BIAS}), 0);
    c.cfg.imuHz = s.pick<double>({100, 50, 200});
    c.imgEvery = s.pick<int>({5, 2, 3, 10});
    c.firstImage = s.range(0, 2 * c.imgEvery);
    c.duration = s.real(0.6, 1.6) * 200 / c.cfg.imuHz;
    c.mot.still = 0.2;
    c.mot.ramp = 0.5;
    c.imgShift = s.chance(1, 2) ? 0 : s.real(-0.7, 0.7) * c.period();
    c.cfg.window = s.range(1, 8);
    c.landmarks = 500;
    c.perFrame = s.pick<int>({20, 30, 14, 40});
    c.cfg.maxFeatures = s.pick<int>({10, 30, 1, 0, 60});
    if (s.chance(1, 6)) c.cfg.ext.resize(1);
    return c;
}

void streams(pbt::Src &s, pbt::Ctx &x) {
    sim::Scenario c = base(s);
    sim::describe(x, c, sim::EXACT);
    auto st = sim::simulate(c);
    std::vector<Msg> in;
    for (auto &e : st.order) {
        Msg m;
        m.image = e.image;
        if (e.image) m.img = sim::copy(st.img[e.index]); else m.imu = sim::copy(st.imu[e.index]);
        in.push_back(m);
    }
    auto stamp = [](const Msg &m) -> double & { return m.image ? m.img->timeStamp : m.imu->timeStamp; };
    const int nf = s.range(0, 10);
    const int cams = int(c.cfg.ext.size());
    std::set<int> kinds;
    for (int k = 0; k < nf && in.size() > 4; ++k) {
        const Fault f = Fault(s.range(0, FAULTS - 1));
        kinds.insert(f);
        std::size_t i = s.choice(in.size() - 1);
        if (f >= FEATURES && f != RESET && f != BURST) while (i < in.size() && !in[i].image) ++i;
        if (f == HIT) while (i < in.size() && (in[i].image || in[i].reset)) ++i;
        if (i >= in.size() || in[i].reset) continue;
        x.desc << names[f] << " at message " << i << " (" << stamp(in[i]) - c.t0 << " s); ";
        auto &m = in[i];
        switch (f) {
        case DROP: in.erase(in.begin() + i); break;
        case TWICE: { Msg d = m; if (d.image) d.img = sim::copy(m.img); else d.imu = sim::copy(m.imu); in.insert(in.begin() + i + 1 + s.choice(std::min<std::size_t>(20, in.size() - 1 - i)), d); break; }
        case LATE: stamp(m) -= s.pick<double>({0.001, 0.01, 0.1, 1, 1e5}); break;
        case SWAP: if (i + 1 < in.size()) std::swap(in[i], in[i + 1]); break;
        case JUMP: { const double by = s.pick<double>({0.05, 0.3, 1, 0.02}); for (std::size_t j = i; j < in.size(); ++j) if (!in[j].reset) stamp(in[j]) += by; break; }
        case HIT: { const double big = s.pick<double>({1, 20, 200}); const int run = s.range(1, 20);
            for (int j = 0; j < run && i + j < in.size(); ++j) if (!in[i + j].image && !in[i + j].reset) { in[i + j].imu->accel += vt::f(V3(vec(s, big))); in[i + j].imu->gyro += vt::f(V3(vec(s, big * 0.1))); } break; }
        case FEATURES: { const double big = s.pick<double>({0.1, 1, 10, 1000}); for (auto &o : m.img->observes) for (auto &z : o->norms) z.second = vt::f(V2(s.real(-big, big), s.real(-big, big))); break; }
        case OUTLIERS: { const double big = s.pick<double>({0.1, 0.02, 1}); const int run = s.range(1, 6), den = s.range(2, 8); int done = 0;
            for (std::size_t j = i; j < in.size() && done < run; ++j) if (in[j].image) { ++done; for (auto &o : in[j].img->observes) if (s.chance(1, den)) for (auto &z : o->norms) z.second += vt::f(V2(s.real(-big, big), s.real(-big, big))); } break; }
        case FEWER_IDS: m.img->ids.resize(s.choice(m.img->ids.size())); break;
        case FEWER_OBSERVES: m.img->observes.resize(s.choice(m.img->observes.size())); break;
        case FLAGS: m.img->flag.resize(s.choice(m.img->flag.size())); break;
        case EMPTY: m.img->ids.clear(); m.img->observes.clear(); m.img->flag.clear(); break;
        case BLIND: for (auto &o : m.img->observes) if (s.chance(1, 3)) o->norms.clear(); break;
        case SAME_ID: if (m.img->ids.size() > 1) m.img->ids[s.choice(m.img->ids.size() - 1)] = m.img->ids[0]; break;
        case ODD_ID: if (!m.img->ids.empty()) m.img->ids[s.choice(m.img->ids.size() - 1)] = s.pick<std::uint32_t>({0u, 0xFFFFFFFFu, 0x80000000u}); break;
        case ONE_CAMERA: { const int keep = s.range(0, cams - 1); for (auto &o : m.img->observes) { auto n = o->norms; o->norms.clear(); if (n.count(keep)) o->norms[keep] = n[keep]; } break; }
        case FROZEN: { std::size_t j = i; while (j > 0 && !in[--j].image) {} if (j != i && in[j].image) { auto t = m.img->timeStamp; m.img = sim::copy(in[j].img); m.img->timeStamp = t; } break; }
        case RESET: { Msg r; r.reset = true; r.image = false; in.insert(in.begin() + i, r); break; }
        case BURST: { const int what = s.range(0, 2), run = s.range(1, 40); std::size_t j = i; for (int q = 0; q < run && j < in.size(); ++q) { if (!in[j].reset && (what == 2 || in[j].image == (what == 1))) in.erase(in.begin() + j); else ++j; } break; }
        case NEW_TRACKS: for (std::size_t j = i; j < in.size(); ++j) if (in[j].image) for (auto &id : in[j].img->ids) id += 5000; break;
        // seen by cameras that are not configured, by them alone, or all images so
        case MORE_CAMERAS: { const int run = s.pick<int>({1, 3, 1000}), den = s.range(1, 4); const std::uint32_t cam = s.pick<std::uint32_t>({std::uint32_t(cams), std::uint32_t(cams + 1), 1000u, 0xFFFFFFFFu}); const bool alone = s.chance(1, 3); int done = 0;
            for (std::size_t j = i; j < in.size() && done < run; ++j) if (in[j].image) { ++done; for (auto &o : in[j].img->observes) if (s.chance(1, den)) { if (alone) o->norms.clear(); o->norms[cam] = vt::f(V2(s.real(-1, 1), s.real(-1, 1))); } } break; }
        default: break;
        }
    }
    if (in.empty()) throw pbt::Discard{};
    for (int k : kinds) x.label(names[k]);
    x.label("no fault", kinds.empty());
    const int sched = s.range(0, 2);
    std::srand(unsigned(s.choice(100)));
    Backend b;
    PBT_CHECK(sim::configure(b, c.cfg), "the configuration is not accepted");
    std::set<double> stamps;
    double origin = 0, lastP = -INFINITY, lastU = -INFINITY;
    bool first = true, was = false;
    int pending = 0, published = 0, starts = 0, faultsAfter = 0;
    (void)faultsAfter;
    const double eps = 1e-6 + 1e-12 * std::fabs(c.t0);
    for (std::size_t i = 0; i < in.size(); ++i) {
        auto &m = in[i];
        if (m.reset) { b.Reset(); was = false; continue; }
        const double t = stamp(m);
        if (first && (!m.image || m.img)) { origin = t; first = false; }
        if (m.image) b.GetFeaturesMessage(m.img); else { stamps.insert(t - origin); b.GetIMUMessage(m.imu); }
        ++pending;
        if (sched == 1 && s.chance(2, 3)) continue;
        if (sched == 2 && i + 1 < in.size() && s.chance(15, 16)) continue;
        for (; pending > 0; --pending) {
            b.RunOnce();
            const bool now = b.status == INITIALIZED;
            if (now && !was) { ++starts; lastP = lastU = -INFINITY; }
            was = now;
            if (!now) continue;
            auto p = sim::latest(b), u = sim::updated(b);
            PBT_CHECK(p.ok && u.ok, "tracking, but no state is published after message " << i);
            for (auto *w : {&p, &u}) {
                PBT_CHECK(w->p.allFinite() && w->v.allFinite() && w->ba.allFinite() && w->bg.allFinite() && w->q.coeffs().allFinite(), "the state published after message " << i << " is not finite: p " << str(w->p) << " v "
                          << str(w->v) << " q " << str(w->q) << " bias " << str(w->ba) << " " << str(w->bg));
                PBT_CHECK(std::fabs(w->q.norm() - 1) < 1e-3, "attitude " << str(w->q) << " of norm " << w->q.norm() << " published after message " << i);
                auto it = stamps.lower_bound(w->t - eps);
                PBT_CHECK(it != stamps.end() && *it <= w->t + eps, "a state of " << w->t << " s is published, no measurement of that time was received (origin " << origin << ")");
            }
            PBT_CHECK(p.t >= lastP - eps && u.t >= lastU - eps && u.t <= p.t + eps, "published time runs backwards: " << p.t << " after " << lastP << ", updated " << u.t << " after " << lastU);
            lastP = p.t; lastU = u.t;
            ++published;
        }
    }
    x.label("tracked", published > 0);
    x.label("restarted", starts > 1);
    x.nontrivial(published > 5 && !kinds.empty());
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C18",
            "simulated streams with up to ten faults (lost, repeated, late, swapped, wild, inconsistent messages, resets) under three schedules, run under AddressSanitizer and UBSan with every published state checked; "
            "non-trivial when faults were present and more than five states were published",
            {"finite values, non-null messages"},
            {{"streams", streams, 400, 20000}}};
}
