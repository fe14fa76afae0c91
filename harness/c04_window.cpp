// C04: every tracked observation stays attached to the frame and camera it was made in, while the sliding window moves.
// variant: san
// fuzz: 120
// units: data_manager
#include "common.hpp"
#include <frame_manager.hpp>
#include <map>
#include <set>
using namespace vt;
using namespace ESKF_VIO_BACKEND;

namespace {
using Obs = std::map<uint32_t, Vector2>;                       // camera -> observation
struct MFrame { double t; std::shared_ptr<Frame> real; std::map<uint32_t, std::vector<Obs>> obs; std::set<uint32_t> empty; };   // feature -> what was observed (several when the message repeats an id)

struct World {
    FeatureManager fm;
    FrameManager wm;
    std::deque<MFrame> win;
};

bool same(const Feature &f, uint32_t frame, const Obs &o, unsigned cams) {
    for (uint32_t c = 0; c < cams + 2; ++c) {
        Vector2 v(55, 55);
        bool has = const_cast<Feature &>(f).GetNorm(frame, c, v);
        auto it = o.find(c);
        if (has != (it != o.end())) return false;
        if (has && v != it->second) return false;
    }
    return true;
}

void check(World &w, unsigned cams) {
    FrameManager &wm = w.wm;
    PBT_CHECK(wm.frames.size() == w.win.size(), "the window holds " << wm.frames.size() << " frames, expected " << w.win.size());
    PBT_CHECK(wm.NeedMarginalize() == (w.win.size() > wm.maxWindowSize), "NeedMarginalize with " << w.win.size() << " frames and a window of " << wm.maxWindowSize);
    if (w.win.empty()) {
        PBT_CHECK(wm.GetMaxFrameID() == 0 && wm.GetFrame(1) == nullptr, "empty window");
        return;
    }
    const uint32_t first = wm.frames.front()->id;
    std::map<uint32_t, uint32_t> views;                        // feature -> number of observations in the window
    for (std::size_t k = 0; k < w.win.size(); ++k) {
        auto &f = wm.frames[k];
        PBT_CHECK(f == w.win[k].real, "frame " << k << " of the window is another frame than expected");
        PBT_CHECK(f->timeStamp == w.win[k].t, "time stamp of frame " << k << " changed from " << w.win[k].t << " to " << f->timeStamp);
        PBT_CHECK(f->id == first + k, "frame ids of the window are not consecutive: frame " << k << " has id " << f->id << ", the oldest " << first);
        PBT_CHECK(wm.GetFrame(f->id) == f, "GetFrame(" << f->id << ") is not the frame with that id");
        for (auto &o : w.win[k].obs) {
            auto it = w.fm.features.find(o.first);
            PBT_CHECK(it != w.fm.features.end() && it->second, "feature " << o.first << " is observed in frame " << f->id << " but not managed any more");
            bool ok = false;
            for (auto &alt : o.second) if (same(*it->second, f->id, alt, cams)) { ok = true; views[o.first] += alt.size(); break; }
            PBT_CHECK(ok, "the observations of feature " << o.first << " in frame " << f->id << " (index " << k << ") are not those made in that frame");
            auto fit = f->features.find(o.first);
            PBT_CHECK(fit != f->features.end(), "frame " << f->id << " observes feature " << o.first << " but does not list it");
            PBT_CHECK(fit->second == it->second, "frame " << f->id << " lists another feature " << o.first << " than the one managed");
        }
        for (auto &l : f->features) PBT_CHECK(w.win[k].obs.count(l.first) || w.win[k].empty.count(l.first), "frame " << f->id << " lists feature " << l.first << " it does not observe");
    }
    PBT_CHECK(wm.GetMaxFrameID() == first + w.win.size() - 1, "GetMaxFrameID is " << wm.GetMaxFrameID());
    PBT_CHECK(wm.GetFrame(first - 1) == nullptr && wm.GetFrame(first + w.win.size()) == nullptr, "GetFrame finds a frame outside the window");
    for (auto &p : w.fm.features) {
        Feature &f = *p.second;
        PBT_CHECK(f.id == p.first, "feature " << p.first << " has id " << f.id);
        uint32_t n = views.count(p.first) ? views[p.first] : 0;
        PBT_CHECK(f.observeNum == n, "feature " << p.first << " counts " << f.observeNum << " observations, the window holds " << n);
        if (n == 0) { for (auto &o : f.observes) PBT_CHECK(o->norms.empty(), "feature " << p.first << " keeps an observation of a frame that left the window"); continue; }
        // no observation is attributed to a frame in which the feature was not observed
        uint32_t last = 0;
        for (std::size_t k = 0; k < w.win.size(); ++k) {
            if (w.win[k].obs.count(p.first)) { last = first + k; continue; }
            PBT_CHECK(same(f, first + k, {}, cams), "feature " << p.first << " was not observed in frame " << first + k << " but has an observation there");
        }
        for (uint32_t id : {first - 1, uint32_t(first + w.win.size()), 0u, 0xffffffffu})
            PBT_CHECK(same(f, id, {}, cams), "feature " << p.first << " has an observation in frame " << id << " outside the window");
        PBT_CHECK(f.FinalFrameID() >= last && f.FinalFrameID() < first + w.win.size(), "feature " << p.first << " ends in frame " << f.FinalFrameID() << ", last observed in " << last);
    }
}

// rec: choices are not recorded beyond some number of them (long histories)
void history(pbt::Src &s, pbt::Ctx &x, const int maxWin, const int steps, const int pool, const bool slide, pbt::Record *rec) {
    World w;
    const unsigned cams = s.range(1, 4);
    const bool gaps = s.chance(1, 2), odd = s.chance(1, 3);
    w.wm.Initialize(maxWin);
    check(w, cams);
    std::vector<uint32_t> ids;
    std::vector<int> state(pool, 0);                           // 0 not yet, 1 tracked, 2 lost
    for (int i = 0; i < pool; ++i) ids.push_back(s.chance(1, 8) ? 0xfffffff0u + i : i + 1);
    double t = s.real(-10, 1e5);
    float serial = 1;
    int oldest = 0, subnew = 0, newest = 0, regained = 0, collapsed = 0, dup = 0, removed = 0;
    for (int k = 0; k < steps; ++k) {
        if (rec && rec->n > pbt::Record::MAX / 2) rec->n = 0;
        t += s.real(0.001, 1);
        auto frame = std::make_shared<Frame>(t);
        Vector3 p(float(k) + 0.5f, -k, 2 * k);
        Quaternion q(0.5f, 0.5f, 0.5f, 0.5f);
        Vector3 prevP = w.win.empty() ? Vector3(0, 0, 0) : w.wm.frames.back()->p_wb, prevV = w.win.empty() ? Vector3(0, 0, 0) : w.wm.frames.back()->v_wb;
        Quaternion prevQ = w.win.empty() ? Quaternion(1, 0, 0, 0) : w.wm.frames.back()->q_wb;
        PBT_CHECK(w.wm.AddNewFrame(frame), "AddNewFrame refuses a frame");
        PBT_CHECK(frame->p_wb == prevP && frame->v_wb == prevV && frame->q_wb.coeffs() == prevQ.coeffs(), "a new frame does not start from the state of the previous one");
        frame->p_wb = p; frame->v_wb = -p; frame->q_wb = q;    // stands for the pose estimated for it
        MFrame mf{t, frame, {}, {}};
        std::vector<uint32_t> mid;
        std::vector<std::shared_ptr<FeatureObserve>> mob;
        x.desc << "frame " << frame->id << ":";
        for (int i = 0; i < pool; ++i) {
            if (state[i] == 0 && s.chance(1, 2)) state[i] = 1;
            else if (state[i] == 1 && s.chance(1, slide ? 200 : 6)) state[i] = 2;
            else if (state[i] == 2 && s.chance(1, 3)) {
                // comes back after a gap; without gaps only once nothing of it is left in the window
                bool left = false;
                for (auto &f : w.win) left = left || f.obs.count(ids[i]);
                if (gaps || !left) { state[i] = 1; if (left) ++regained; }
            }
            if (state[i] != 1) continue;
            for (int rep = (odd && s.chance(1, 10)) ? (++dup, 2) : 1; rep > 0; --rep) {
                std::unordered_map<uint32_t, Vector2> n;
                for (unsigned c = 0; c < cams; ++c) if (s.chance(3, 4)) { n[c] = Vector2(serial, -serial * 0.25f); serial += 1; }
                if (n.empty() && !odd) { n[0] = Vector2(serial, 0); serial += 1; }
                mid.push_back(ids[i]);
                mob.push_back(std::make_shared<FeatureObserve>(n));
                if (!n.empty()) mf.obs[ids[i]].push_back(Obs(n.begin(), n.end()));
                else mf.empty.insert(ids[i]);
                x.desc << " " << ids[i] << "(" << n.size() << ")";
            }
        }
        std::vector<std::shared_ptr<Feature>> changed;
        if (s.chance(1, 20)) {                                 // ids and observations that do not match: refused without effect
            auto bad = mid;
            auto badObs = mob;
            if (s.chance(1, 2)) bad.push_back(12345678); else badObs.push_back(std::make_shared<FeatureObserve>(std::unordered_map<uint32_t, Vector2>{{0u, Vector2(0, 0)}}));
            PBT_CHECK(!w.fm.AddNewFeatures(bad, badObs, frame->id, changed) && changed.empty(), "mismatched features accepted");
        }
        PBT_CHECK(w.fm.AddNewFeatures(mid, mob, frame->id, changed), "AddNewFeatures refuses a features message");
        std::set<uint32_t> got, want;
        for (auto &o : mf.obs) want.insert(o.first);
        for (auto &c : changed) if (want.count(c->id) || !mf.empty.count(c->id)) got.insert(c->id);
        PBT_CHECK(got == want, "AddNewFeatures reports " << got.size() << " changed features, " << want.size() << " were observed");
        frame->AddFeatures(changed);
        w.win.push_back(mf);
        check(w, cams);
        // shared features of two frames of the window
        if (w.win.size() > 1) {
            std::size_t a = s.choice(w.win.size() - 1), b = s.choice(w.win.size() - 1);
            std::set<uint32_t> cov, ref;
            for (auto &f : w.wm.frames[a]->GetCovisibleFeatures(w.wm.frames[b])) if (!w.win[a].empty.count(f->id) && !w.win[b].empty.count(f->id)) cov.insert(f->id);
            for (auto &o : w.win[a].obs) if (w.win[b].obs.count(o.first) && !w.win[a].empty.count(o.first) && !w.win[b].empty.count(o.first)) ref.insert(o.first);
            PBT_CHECK(cov == ref, "frames " << a << " and " << b << " share " << ref.size() << " features, GetCovisibleFeatures finds " << cov.size());
        }
        if (s.chance(1, slide ? 2000 : 60)) {
            uint32_t id = s.pick(ids);
            w.fm.RemoveByID(id);
            PBT_CHECK(!w.fm.features.count(id), "removed feature still managed");
            for (auto &f : w.win) { f.obs.erase(id); f.real->features.erase(id); }
            x.desc << " remove feature " << id;
            ++removed;
            check(w, cams);
        }
        auto drop = [&](std::size_t idx) {
            w.fm.RemoveByFrameID(w.wm.frames[idx]->id, idx != 0);
            PBT_CHECK(w.wm.RemoveFrame(idx), "RemoveFrame refuses index " << idx);
            w.win.erase(w.win.begin() + idx);
            check(w, cams);
        };
        PBT_CHECK(!w.wm.RemoveFrame(w.win.size()), "RemoveFrame accepts an index beyond the window");
        if (w.win.size() > 1 && s.chance(1, slide ? 5000 : 25)) { x.desc << " collapse"; ++collapsed; while (w.win.size() > 1) drop(0); }
        else if (w.wm.NeedMarginalize()) {
            const int pol = slide && !s.chance(1, 50) ? 0 : s.range(0, 9);
            if (pol < 5) { x.desc << " drop oldest"; ++oldest; drop(0); }
            else if (pol < 9) { x.desc << " drop subnew"; ++subnew; drop(w.win.size() - 2); }
            else { x.desc << " drop newest"; ++newest; drop(w.win.size() - 1); }
        } else if (!slide && w.win.size() > 2 && s.chance(1, 20)) { std::size_t i = 1 + s.choice(w.win.size() - 2); x.desc << " drop index " << i; drop(i); }
        x.desc << "; ";
    }
    w.fm.Information();                                        // printing changes nothing
    w.wm.Information();
    check(w, cams);
    x.label("oldest dropped", oldest > 0);
    x.label("subnew dropped", subnew > 0);
    x.label("newest dropped", newest > 0);
    x.label("feature regained after a gap", regained > 0);
    x.label("window collapsed", collapsed > 0);
    x.label("repeated id in a message", dup > 0);
    x.label("feature removed", removed > 0);
    x.nontrivial(oldest > 0 && subnew > 0);
}
void window(pbt::Src &s, pbt::Ctx &x) {
    const int maxWin = s.chance(1, 20) ? s.range(9, 30) : s.range(2, 8), steps = s.range(1, maxWin > 8 ? 80 : 40), pool = s.range(1, 10);
    history(s, x, maxWin, steps, pool, false, nullptr);
}
// hours of images: frame numbers and counters grow
void marathon(pbt::Src &s, pbt::Ctx &x) {
    static auto rec = std::make_unique<pbt::Record>();
    const int steps = s.pick<int>({300, 700, 70000}), pool = s.range(1, 3), maxWin = s.range(2, steps > 1000 ? 4 : 20);
    pbt::Src in(rec.get(), s.choice(~0ull));
    x.desc << steps << " images; ";
    x.label(std::to_string(steps) + " images");
    history(in, x, maxWin, steps, pool, true, rec.get());
}
// images with many features
void crowd(pbt::Src &s, pbt::Ctx &x) {
    static auto rec = std::make_unique<pbt::Record>();
    const int pool = s.pick<int>({300, 600, 1500});
    pbt::Src in(rec.get(), s.choice(~0ull));
    history(in, x, s.range(2, 5), s.range(3, 12), pool, false, rec.get());
}
} // namespace

pbt::Suite pbt::suite() {
    return {"C04",
            "random track / marginalise histories over FeatureManager and FrameManager, driven as the backend drives them and compared after every step with a model; "
            "non-trivial when both the oldest and the sub-newest frame were dropped at some time",
            {"observations are non-null; the frame id passed to AddNewFeatures is that of the newest frame", "an id repeated within one message may keep any one of its observations"},
            {{"window", window, 30000, 600000}, {"marathon", marathon, 48, 2000}, {"crowd", crowd, 100, 2000}}};
}
