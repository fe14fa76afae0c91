// C23: names and order of tracks, numbers of the further cameras and the choice of the body frame do not matter.
#include "sim.hpp"
#include <cstdlib>
#include <numeric>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
struct Run { std::vector<sim::Pub> last, upd; std::vector<int> status; };
Run run(const sim::Scenario &c, const sim::Stream &st) {
    std::srand(1);
    Run r;
    Backend b;
    PBT_CHECK(sim::configure(b, c.cfg), "the configuration is not accepted");
    for (auto &e : st.order) {
        sim::push(b, st, e);
        b.RunOnce();
        if (!e.image) continue;
        r.last.push_back(sim::latest(b));
        r.upd.push_back(sim::updated(b));
        r.status.push_back(b.status);
    }
    return r;
}
std::string show(const sim::Pub &a) { return a.ok ? "t " + std::to_string(a.t) + " p " + str(a.p) + " v " + str(a.v) + " q " + str(a.q) + " bias " + str(a.ba) + " " + str(a.bg) : "none"; }
struct Apart { double p = 0, v = 0, q = 0, ba = 0, bg = 0; };
// b is expressed in a body frame turned by `turn` against that of a; the worlds may differ by the heading
Apart apart(const sim::Pub &a, const sim::Pub &b, const Q &turn, double yaw) {
    const Q w = expq(V3(0, 0, yaw));
    return {(a.p - w * b.p).norm(), (a.v - w * b.v).norm(), angle(a.q, w * b.q * turn.conjugate()), (a.ba - turn * b.ba).norm(), (a.bg - turn * b.bg).norm()};
}

sim::Scenario make(pbt::Src &s, pbt::Ctx &x) {
    const sim::Kind k = s.pick<sim::Kind>({sim::EXACT, sim::BIAS_NOISE, sim::BIAS, sim::NOISE});
    sim::Scenario c = sim::scenario(s, k, s.real(1.2, 2.5));
    c.perFrame = s.chance(1, 6) ? s.pick<int>({60, 90}) : std::min(c.perFrame, 30);
    c.cfg.maxFeatures = 100;                                          // all are used
    // thresholds that rounding does not decide
    if (s.chance(1, 2)) { c.cfg.parallax = 100; c.cfg.translation = 1000; } else { c.cfg.parallax = 0; c.cfg.translation = 1000; }
    sim::describe(x, c, k);
    return c;
}
void compare(const Run &a, const Run &b, const Q &turn, pbt::Ctx &x, double tol, const char *what) {
    PBT_CHECK(a.status == b.status, what << ": tracking starts or ends at another image");
    double yaw = 0;
    bool have = false;
    Apart m;
    int n = 0;
    for (std::size_t i = 0; i < a.last.size(); ++i) for (int w = 0; w < 2; ++w) {
        auto &pa = w ? a.upd[i] : a.last[i];
        auto &pb = w ? b.upd[i] : b.last[i];
        PBT_CHECK(pa.ok == pb.ok && (!pa.ok || pa.t == pb.t), what << ": state of " << pb.t << " s published instead of " << pa.t);
        if (!pa.ok) continue;
        if (!have) { const Q d = pa.q * (pb.q * turn.conjugate()).conjugate(); yaw = 2 * std::atan2(d.z(), d.w()); have = true; }
        ++n;
        const Apart k = apart(pa, pb, turn, yaw);
        m.p = std::max(m.p, k.p); m.v = std::max(m.v, k.v); m.q = std::max(m.q, k.q); m.ba = std::max(m.ba, k.ba); m.bg = std::max(m.bg, k.bg);
        const bool bad = !(k.p < tol && k.v < 1.5 * tol && k.q < 0.2 * tol && k.ba < 0.1 * tol && k.bg < 0.02 * tol);
        if (bad && !getenv("VT_DUMP")) PBT_FAIL(what << ": after image " << i << " the " << (w ? "updated" : "latest") << " state is " << show(pb) << " instead of " << show(pa) << "; apart (heading aligned) by " << k.p << " m, " << k.v << " m/s, " << k.q << " rad, " << k.ba << ", " << k.bg);
    }
    if (getenv("VT_DUMP")) { FILE *f = fopen(getenv("VT_DUMP"), "a"); fprintf(f, "what=%c p %g v %g q %g ba %g bg %g\n", what[0], m.p, m.v, m.q, m.ba, m.bg); fclose(f); }
    x.nontrivial(n > 16);
}

void names(pbt::Src &s, pbt::Ctx &x) {
    sim::Scenario c = make(s, x);
    if (c.cfg.ext.size() == 2 && s.chance(1, 2)) c.cfg.ext.push_back({c.cfg.ext[1].q, c.cfg.ext[0].p + (c.cfg.ext[0].p - c.cfg.ext[1].p)});
    auto st = sim::simulate(c);
    if (sim::fewest(st) < 12) throw pbt::Discard{};
    Run a = run(c, st);
    sim::Scenario c2 = c;
    sim::Stream t;
    const int how = s.range(0, 4);
    const std::uint32_t mul = std::uint32_t(s.choice(0x7fffffff)) * 2 + 1;
    std::uint32_t add = std::uint32_t(s.choice(0xffffffffu));
    if (how == 1 && s.chance(2, 3)) {                                  // one of the tracks gets the largest number, another the smallest
        auto &m = st.img[s.choice(st.img.size() - 1)];
        if (!m->ids.empty()) add = 0xffffffffu - m->ids[s.choice(m->ids.size() - 1)];
    }
    std::vector<int> to(c.cfg.ext.size());
    std::iota(to.begin(), to.end(), 0);
    const bool swap = to.size() > 2 && s.chance(2, 3);
    if (swap) { std::swap(to[1], to[2]); std::swap(c2.cfg.ext[1], c2.cfg.ext[2]); }
    for (auto &m : st.imu) t.imu.push_back(sim::copy(m));
    for (auto &m : st.img) {
        auto k = sim::copy(m);
        for (auto &id : k->ids) id = how == 0 ? id : how == 1 ? id + add : how == 2 ? 0xffffffffu - id : id * mul + add;
        std::vector<std::size_t> perm(k->ids.size());
        std::iota(perm.begin(), perm.end(), 0);
        for (std::size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[s.choice(i - 1)]);
        for (std::size_t i = 0; i < perm.size(); ++i) {
            k->ids[i] = how == 0 ? m->ids[perm[i]] : how == 1 ? m->ids[perm[i]] + add : how == 2 ? 0xffffffffu - m->ids[perm[i]] : m->ids[perm[i]] * mul + add;
            auto o = std::make_shared<FeatureObserve>();
            for (auto &z : m->observes[perm[i]]->norms) o->norms[std::uint32_t(to[z.first])] = z.second;
            k->observes[i] = o;
        }
        t.img.push_back(k);
    }
    t.order = st.order;
    // what cameras see that are not configured does not count
    const std::uint32_t more = s.chance(1, 3) ? std::uint32_t(to.size()) + std::uint32_t(s.choice(3)) : 0;
    const bool alone = more && s.chance(1, 3);
    if (more) for (auto &m : t.img) {
        for (auto &o : m->observes) if (s.chance(1, 2)) o->norms[more] = f(V2(s.real(-1, 1), s.real(-1, 1)));
        for (int i = alone ? s.range(1, 3) : 0; i > 0; --i) {             // tracks that no other camera sees
            auto o = std::make_shared<FeatureObserve>();
            o->norms[more] = f(V2(s.real(-1, 1), s.real(-1, 1)));
            std::uint32_t id = std::uint32_t(s.choice(0xffffffffu));
            while (std::count(m->ids.begin(), m->ids.end(), id)) ++id;
            m->ids.push_back(id); m->observes.push_back(o); m->flag.push_back(0);
        }
    }
    x.label("observations by further cameras", more > 0);
    x.desc << (more ? "observations by camera " + std::to_string(more) + " added, " : "") << "renamed in way " << how << ", shuffled" << (swap ? ", cameras 1 and 2 swapped" : "");
    Run b = run(c2, t);
    compare(a, b, Q::Identity(), x, 1.2e-3, "names");
    x.label("cameras swapped", swap);
    x.label("renamed", how > 0);
}

void body(pbt::Src &s, pbt::Ctx &x) {
    sim::Scenario c = make(s, x);
    auto st = sim::simulate(c);
    if (sim::fewest(st) < 12) throw pbt::Discard{};
    Run a = run(c, st);
    const Q turn = rot(s);                                            // new body axes in the old
    sim::Scenario c2 = c;
    for (auto &e : c2.cfg.ext) { e.q = (turn.conjugate() * e.q).normalized(); e.p = turn.conjugate() * e.p; }
    c2.cfg.ba = turn.conjugate() * c.cfg.ba;
    c2.cfg.bg = turn.conjugate() * c.cfg.bg;
    sim::Stream t;
    for (auto &m : st.imu) { auto k = sim::copy(m); k->accel = f(V3(turn.conjugate() * d(m->accel))); k->gyro = f(V3(turn.conjugate() * d(m->gyro))); t.imu.push_back(k); }
    for (auto &m : st.img) t.img.push_back(sim::copy(m));
    t.order = st.order;
    x.desc << "body turned by " << str(turn);
    Run b = run(c2, t);
    compare(a, b, turn, x, 1.2e-3, "body");
    x.label("turned by more than a right angle", angle(turn, Q::Identity()) > M_PI / 2);
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C23",
            "simulated streams processed as they are and with renamed, shuffled tracks and renumbered cameras, or with body axes turned against the rig; all published states compared; non-trivial when more than sixteen states were compared",
            {"all tracks are used in the update (limit not below their number)", "key-frame thresholds that rounding does not decide"},
            {{"names", names, 300, 8000}, {"body", body, 300, 8000}}};
}
