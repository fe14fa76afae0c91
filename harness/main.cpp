// Driver of the engine in pbt.hpp.
#include "pbt.hpp"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace pbt;
using Choices = std::vector<std::uint64_t>;

namespace {

constexpr int RC_PASS = 0, RC_FAIL = 1, RC_HANG = 77;

double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

template <class T> T *shared() {
    void *p = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); std::exit(3); }
    return static_cast<T *>(p);
}

std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}

void onHang(int) { _exit(RC_HANG); }

void armCpuLimit(int seconds) {
    struct itimerval t {};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

void put(char *dst, std::size_t cap, const std::string &s) {
    std::size_t n = std::min(cap - 1, s.size());
    std::memcpy(dst, s.data(), n);
    dst[n] = 0;
}

// runs one case in this process; returns RC_PASS or RC_FAIL
int runCase(const Suite &su, const Prop &p, Src &src, Ctx &ctx, Record *rec) {
    armCpuLimit(su.cpuLimitSeconds);
    rec->msg[0] = 0;
    rec->desc[0] = 0;
    if (ctx.verbose) ctx.describeInto(rec->desc, sizeof rec->desc);
    int rc = RC_PASS;
    try {
        std::srand(1);
        p.fn(src, ctx);
    } catch (const Fail &f) {
        put(rec->msg, sizeof rec->msg, f.msg);
        rc = RC_FAIL;
    } catch (const Discard &) {
        ctx.nontrivial_ = false;
        ctx.labels.assign(1, "discarded");
    } catch (const std::exception &e) {
        put(rec->msg, sizeof rec->msg, std::string("exception escaped: ") + e.what());
        rc = RC_FAIL;
    }
    armCpuLimit(0);
    return rc;
}

struct Shared {
    volatile int stop;
    struct W { volatile int prop, idx, state; } w[64];   // state: 0 idle, 1 running, 2 done, 3 failed
};

// outcome of a sequence of choices, decided in a child process
struct Outcome { int kind = 0; /* 0 pass, 1 fail, 2 crash, 3 hang */ std::string msg; Choices used; std::string desc; };

Outcome tryChoices(const Suite &su, const Prop &p, const Choices &c, Record *rec, int tier, bool verbose) {
    rec->n = 0; rec->msg[0] = 0; rec->desc[0] = 0;
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        Src s(rec, &c);
        Ctx x;
        x.tier = tier;
        x.verbose = verbose;
        if (!verbose) { int fd = ::dup(2); (void)fd; if (!freopen("/dev/null", "w", stderr)) _exit(3); }
        _exit(runCase(su, p, s, x, rec));
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    o.used.assign(rec->c, rec->c + rec->n);
    o.msg = rec->msg;
    o.desc = rec->desc;
    if (WIFEXITED(st) && WEXITSTATUS(st) == RC_PASS) o.kind = 0;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == RC_FAIL && rec->msg[0]) o.kind = 1;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == RC_HANG) { o.kind = 3; o.msg = "case does not terminate within the CPU limit of " + std::to_string(su.cpuLimitSeconds) + " s"; }
    else {
        o.kind = 2;
        o.msg = WIFSIGNALED(st) ? std::string("crash: signal ") + strsignal(WTERMSIG(st)) : "crash: exit status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer or abort)";
    }
    return o;
}

// Runs cases idxs[0..] of sub-property pi one after another in one fresh process and judges the last one.  Used when a
// failure needs state that earlier cases left behind in the code under test (static or global state).
Outcome tryHistory(const Suite &su, std::size_t pi, std::uint64_t seed, const std::vector<int> &idxs, Record *rec, int tier) {
    rec->n = 0; rec->msg[0] = 0; rec->desc[0] = 0;
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        if (!freopen("/dev/null", "w", stderr)) _exit(3);
        int rc = 0;
        for (int i : idxs) {
            Src s(rec, mix(mix(mix(seed, 0x5eed), pi), std::uint64_t(i)));
            Ctx x;
            x.tier = tier;
            rc = runCase(su, su.props[pi], s, x, rec);
        }
        _exit(rc);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    o.msg = rec->msg;
    o.desc = rec->desc;
    if (WIFEXITED(st) && WEXITSTATUS(st) == RC_PASS) o.kind = 0;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == RC_FAIL && rec->msg[0]) o.kind = 1;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == RC_HANG) { o.kind = 3; o.msg = "does not terminate"; }
    else { o.kind = 2; o.msg = "crash"; }
    return o;
}

Choices shrink(const Suite &su, const Prop &p, Choices best, int kind, Record *rec, int tier, double budget, int &attempts) {
    const double t0 = now();
    attempts = 0;
    auto ok = [&](const Choices &c) {
        if (now() - t0 > budget || attempts > 6000) return false;
        ++attempts;
        Outcome o = tryChoices(su, p, c, rec, tier, false);
        if (o.kind != kind) return false;
        Choices u = o.used;
        // accept only if it is shorter or lexicographically smaller
        if (u.size() < best.size() || (u.size() == best.size() && u < best)) { best = u; return true; }
        return false;
    };
    bool progress = true;
    while (progress && now() - t0 < budget && attempts < 6000) {
        progress = false;
        for (std::size_t len : {256, 128, 64, 32, 16, 8, 4, 3, 2, 1}) {                   // delete chunks
            for (std::size_t i = best.size(); i-- > 0;) {
                if (i + len > best.size()) continue;
                if (len > 8 && i % (len / 4) != 0) continue;
                Choices c = best;
                c.erase(c.begin() + i, c.begin() + i + len);
                if (ok(c)) progress = true;
                if (now() - t0 > budget) break;
            }
        }
        for (std::size_t len : {64, 16, 4}) {                                             // zero chunks
            for (std::size_t i = 0; i < best.size(); i += len) {
                Choices c = best;
                bool ch = false;
                for (std::size_t k = i; k < std::min(i + len, c.size()); ++k) { ch = ch || c[k]; c[k] = 0; }
                if (ch && ok(c)) progress = true;
            }
        }
        for (std::size_t i = 0; i < best.size(); ++i) {                                   // minimise values
            if (i >= best.size() || best[i] == 0) continue;
            Choices c = best;
            c[i] = 0;
            if (ok(c)) { progress = true; continue; }
            std::uint64_t lo = 0;
            for (int it = 0; it < 24 && i < best.size() && best[i] > lo + 1; ++it) {
                Choices d = best;
                std::uint64_t mid = lo + (best[i] - lo) / 2;
                d[i] = mid;
                if (ok(d)) progress = true; else lo = mid;
            }
            if (now() - t0 > budget) break;
        }
    }
    return best;
}

} // namespace

int main(int argc, char **argv) {
    std::string tier = "quick", evidence, replay, refine, replayDir = ".";
    std::uint64_t seed = 1;
    double scale = 1, cap = 420, shrinkBudget = 60;
    std::string only;
    int jobs = 8;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return std::string(argv[++i]); };
        if (a == "--tier") tier = next();
        else if (a == "--seed") seed = std::strtoull(next().c_str(), nullptr, 10);
        else if (a == "--evidence") evidence = next();
        else if (a == "--replay") replay = next();
        else if (a == "--refine") refine = next();
        else if (a == "--replay-dir") replayDir = next();
        else if (a == "--scale") scale = std::stod(next());
        else if (a == "--cap") cap = std::stod(next());
        else if (a == "--shrink") shrinkBudget = std::stod(next());
        else if (a == "--only") only = next();
        else if (a == "--jobs") jobs = std::stoi(next());
        else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    const int t = tier == "thorough" ? 1 : 0;
    std::signal(SIGPROF, onHang);
    std::cout.setstate(std::ios::badbit);          // the library logs through std::cout
    Suite su = suite();

    // --refine: confirm and shrink a replay file that another search (coverage-guided) found
    if (!refine.empty()) replay = refine;
    if (!replay.empty()) {                         // file: property / sub-property name / choices
        std::ifstream f(replay);
        std::string key, name;
        Choices c;
        std::vector<int> hist;
        std::uint64_t hseed = 0;
        std::string line;
        while (std::getline(f, line)) {
            std::istringstream ls(line);
            ls >> key;
            if (key == "subproperty") ls >> name;
            else if (key == "history") { ls >> hseed; int v; while (ls >> v) hist.push_back(v); }
            else if (key == "choices") { std::uint64_t v; while (ls >> v) c.push_back(v); }
        }
        for (auto &p : su.props) if (name == p.name) {
            Record *rec = shared<Record>();
            if (!refine.empty()) {
                Outcome o = tryChoices(su, p, c, rec, t, false);
                if (o.kind == 0) { std::printf("not confirmed\n"); return 0; }
                int attempts = 0;
                Choices best = shrink(su, p, c, o.kind, rec, t, shrinkBudget, attempts);
                for (int i = 0; i < 3; ++i) if (tryChoices(su, p, best, rec, t, false).kind == 0) { std::printf("not confirmed\n"); return 0; }
                Outcome f = tryChoices(su, p, best, rec, t, true);
                std::string m = f.msg;
                std::replace(m.begin(), m.end(), '\n', '|');
                std::ofstream rf(refine);
                rf << "property " << su.id << "\nsubproperty " << p.name << "\nmessage " << m << "\nchoices";
                for (auto v : best) rf << " " << v;
                rf << "\n";
                std::istringstream ds(f.desc);
                for (std::string l; std::getline(ds, l);) rf << "# " << l << "\n";
                rf.close();
                std::fprintf(stderr, "[%s] coverage-guided: shrunk from %zu to %zu choices: %s\n%s\n", su.id, c.size(), best.size(), f.msg.c_str(), f.desc.c_str());
                std::printf("VIOLATION property=%s replay=%s\n", su.id, refine.c_str());
                return 1;
            }
            Outcome o = hist.empty() ? tryChoices(su, p, c, rec, t, true)
                                     : tryHistory(su, std::size_t(&p - &su.props[0]), hseed, hist, rec, t);
            std::printf("%s\n", o.desc.c_str());
            if (o.kind == 0) { std::printf("replay of %s/%s: holds\n", su.id, p.name); return 0; }
            std::printf("replay of %s/%s: %s\n", su.id, p.name, o.msg.c_str());
            return 1;
        }
        std::fprintf(stderr, "replay file names no sub-property of %s\n", su.id);
        return 3;
    }

    const double t0 = now();
    jobs = std::max(1, std::min(jobs, 64));
    Shared *sh = shared<Shared>();
    std::vector<Record *> recs;
    for (int i = 0; i < jobs; ++i) recs.push_back(shared<Record>());
    char tmpl[] = "/tmp/vioverif.XXXXXX";
    std::string tmp = mkdtemp(tmpl);
    std::vector<int> counts;
    for (auto &p : su.props) {
        int n = t ? p.thorough : p.quick;
        n = int(n * scale + 0.5);
        if (!only.empty() && only != p.name) n = 0;
        counts.push_back(n);
    }

    std::vector<pid_t> pids;
    for (int w = 0; w < jobs; ++w) {
        std::fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            if (!freopen("/dev/null", "w", stderr)) _exit(3);
            std::map<std::string, long> labels;
            std::unordered_set<std::uint64_t> hashes;
            std::vector<std::string> samples;
            std::vector<long> done(su.props.size(), 0);
            bool capped = false;
            // sub-properties are interleaved, so that a time cap thins all of them alike
            int maxN = 0;
            for (int c : counts) maxN = std::max(maxN, c);
            for (std::size_t pi = 0; pi < su.props.size() && !sh->stop; ++pi) {
                std::size_t nsamp = 0;
                for (int i = w; i < counts[pi] && !sh->stop; i += jobs) {
                    if (now() - t0 > cap * double(pi + 1) / double(su.props.size())) { capped = true; break; }
                    sh->w[w].prop = int(pi);
                    sh->w[w].idx = i;
                    sh->w[w].state = 1;
                    Src s(recs[w], mix(mix(mix(seed, 0x5eed), pi), std::uint64_t(i)));
                    Ctx x;
                    x.tier = t;
                    x.verbose = nsamp < 1 && w < 3;
                    int rc = runCase(su, su.props[pi], s, x, recs[w]);
                    ++done[pi];
                    for (auto &l : x.labels) ++labels[std::string(su.props[pi].name) + ": " + l];
                    if (x.nontrivial_) {
                        std::uint64_t h = mix(pi, recs[w]->n);
                        for (std::uint32_t k = 0; k < recs[w]->n; ++k) h = mix(h, recs[w]->c[k]);
                        hashes.insert(h);
                        if (x.verbose) { ++nsamp; samples.push_back(std::string(su.props[pi].name) + " case " + std::to_string(i) + ": " + std::string(recs[w]->desc)); }
                    }
                    if (rc == RC_FAIL) { sh->w[w].state = 3; sh->stop = 1; _exit(RC_FAIL); }
                }
            }
            sh->w[w].state = 2;
            std::ofstream o(tmp + "/w" + std::to_string(w));
            o << "capped " << capped << "\n";
            for (std::size_t pi = 0; pi < done.size(); ++pi) o << "done " << pi << " " << done[pi] << "\n";
            for (auto &l : labels) o << "label " << l.second << " " << l.first << "\n";
            for (auto h : hashes) o << "hash " << h << "\n";
            for (auto &s : samples) { std::string q = s.substr(0, 3000); std::replace(q.begin(), q.end(), '\n', '|'); o << "sample " << q << "\n"; }
            o.close();
            _exit(RC_PASS);
        }
        pids.push_back(pid);
    }
    // collect
    int failW = -1;
    std::vector<int> status(jobs, 0);
    for (int left = jobs; left > 0; --left) {
        int st;
        pid_t pid = waitpid(-1, &st, 0);
        for (int w = 0; w < jobs; ++w) if (pids[w] == pid) {
            status[w] = st;
            bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == RC_PASS);
            if (bad) { sh->stop = 1; if (failW < 0 && sh->w[w].state != 0) failW = w; }
        }
    }
    // prefer an ordinary failure with the smallest case index among those seen
    for (int w = 0; w < jobs; ++w) {
        bool bad = !(WIFEXITED(status[w]) && WEXITSTATUS(status[w]) == RC_PASS);
        if (bad && failW >= 0 && sh->w[w].state != 0) {
            auto key = [&](int k) { return std::make_pair(sh->w[k].prop, sh->w[k].idx); };
            if (key(w) < key(failW)) failW = w;
        }
    }
    std::map<std::string, long> labels;
    std::unordered_set<std::uint64_t> hashes;
    std::vector<std::string> samples;
    std::vector<long> done(su.props.size(), 0);
    bool capped = false;
    for (int w = 0; w < jobs; ++w) {
        std::ifstream f(tmp + "/w" + std::to_string(w));
        std::string line;
        while (std::getline(f, line)) {
            std::istringstream ls(line);
            std::string k;
            ls >> k;
            if (k == "capped") { int c; ls >> c; capped = capped || c; }
            else if (k == "done") { std::size_t pi; long n; ls >> pi >> n; done[pi] += n; }
            else if (k == "label") { long n; ls >> n; std::string rest; std::getline(ls, rest); labels[rest.substr(1)] += n; }
            else if (k == "hash") { std::uint64_t h; ls >> h; hashes.insert(h); }
            else if (k == "sample") { std::string rest; std::getline(ls, rest); samples.push_back(rest.substr(1)); }
        }
        std::remove((tmp + "/w" + std::to_string(w)).c_str());
    }
    rmdir(tmp.c_str());

    int violations = 0;
    std::string violationMsg;
    int exitCode = 0;
    if (failW >= 0) {
        const Prop &p = su.props[sh->w[failW].prop];
        const int idx = sh->w[failW].idx;
        Choices orig(recs[failW]->c, recs[failW]->c + recs[failW]->n);
        // the choices of a crashed or hung case are a prefix of the case: let the generator continue as it did
        {
            Record *r = shared<Record>();
            pid_t pid = fork();
            if (pid == 0) {
                if (!freopen("/dev/null", "w", stderr)) _exit(3);
                Src s(r, mix(mix(mix(seed, 0x5eed), sh->w[failW].prop), std::uint64_t(idx)));
                Ctx x; x.tier = t;
                _exit(runCase(su, p, s, x, r));
            }
            int st; waitpid(pid, &st, 0);
            if (r->n >= orig.size()) orig.assign(r->c, r->c + r->n);
        }
        Record *rec = recs[0];
        Outcome o = tryChoices(su, p, orig, rec, t, false);
        std::fprintf(stderr, "[%s] case %d of %s failed: %s\n", su.id, idx, p.name, o.kind ? o.msg.c_str() : recs[failW]->msg);
        Choices best = orig;
        int attempts = 0;
        if (o.kind == 1 || o.kind == 2 || o.kind == 3)
            best = shrink(su, p, orig, o.kind, rec, t, o.kind == 3 ? shrinkBudget / 2 : shrinkBudget, attempts);
        auto confirm = [&](const Choices &c, int times) { int n = 0; for (int i = 0; i < times; ++i) n += tryChoices(su, p, c, rec, t, false).kind != 0; return n; };
        bool sure = confirm(best, 3) == 3;
        if (!sure) { best = orig; sure = confirm(best, 3) == 3; }
        if (!sure) sure = confirm(best, 6) >= 1 && o.kind == 2;      // memory corruption need not repeat exactly
        if (sure) {
            Outcome f = tryChoices(su, p, best, rec, t, true);
            if (f.kind == 0) f = o;
            std::string path = replayDir + "/" + su.id + "-" + p.name + "-" + std::to_string(seed) + "-" + std::to_string(idx) + ".replay";
            std::ofstream rf(path);
            rf << "property " << su.id << "\nsubproperty " << p.name << "\nmessage ";
            std::string m = f.msg;
            std::replace(m.begin(), m.end(), '\n', '|');
            rf << m << "\nchoices";
            for (auto v : best) rf << " " << v;
            rf << "\n";
            std::istringstream ds(f.desc);
            for (std::string l; std::getline(ds, l);) rf << "# " << l << "\n";
            rf.close();
            std::fprintf(stderr, "[%s] shrunk from %zu to %zu choices in %d attempts: %s\n%s\n", su.id, orig.size(), best.size(), attempts, f.msg.c_str(), f.desc.c_str());
            std::printf("VIOLATION property=%s replay=%s\n", su.id, path.c_str());
            std::fflush(stdout);
            violations = 1;
            violationMsg = std::string(p.name) + ": " + f.msg;
            exitCode = 1;
        } else if ([&] {
            // does it need what earlier cases of the same worker left behind?
            std::vector<int> all;
            for (int i = failW; i <= idx; i += jobs) all.push_back(i);
            const std::size_t pi = sh->w[failW].prop;
            for (std::size_t k = 2; ; k *= 2) {
                std::vector<int> h(all.end() - std::min(k, all.size()), all.end());
                bool all3 = true;
                for (int r = 0; r < 3 && all3; ++r) { o = tryHistory(su, pi, seed, h, rec, t); all3 = o.kind != 0; }
                if (all3) {
                    std::string path = replayDir + "/" + su.id + "-" + p.name + "-" + std::to_string(seed) + "-" + std::to_string(idx) + ".replay";
                    std::ofstream rf(path);
                    std::string m = o.msg;
                    std::replace(m.begin(), m.end(), '\n', '|');
                    rf << "property " << su.id << "\nsubproperty " << p.name << "\nmessage " << m << "\nhistory " << seed;
                    for (int i : h) rf << " " << i;
                    rf << "\n";
                    std::fprintf(stderr, "[%s] needs a history of %zu cases in one process (state leaks between independent objects): %s\n", su.id, h.size(), o.msg.c_str());
                    std::printf("VIOLATION property=%s replay=%s\n", su.id, path.c_str());
                    violations = 1;
                    violationMsg = std::string(p.name) + " (after earlier cases): " + o.msg;
                    exitCode = 1;
                    return true;
                }
                if (k >= all.size()) return false;
            }
        }()) {
        } else {
            std::fprintf(stderr, "[%s] INCONCLUSIVE: case %d of %s failed once and did not fail again\n", su.id, idx, p.name);
        }
    }

    long evals = 0;
    for (auto d : done) evals += d;
    if (violations) evals = std::max(evals, 1l);
    if (!evidence.empty()) {
        std::ofstream e(evidence + ".tmp");
        e << "{\n \"property\": " << jstr(su.id) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n";
        e << " \"coverage\": {\n  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << hashes.size() << ",\n  \"rule\": " << jstr(su.rule) << ",\n";
        e << "  \"cases_per_subproperty\": {";
        for (std::size_t i = 0; i < done.size(); ++i) e << (i ? ", " : "") << jstr(su.props[i].name) << ": " << done[i];
        e << "},\n  \"labels\": {";
        bool first = true;
        for (auto &l : labels) { e << (first ? "" : ", ") << jstr(l.first) << ": " << l.second; first = false; }
        e << "},\n  \"time_capped\": " << (capped ? "true" : "false") << ",\n  \"samples\": [";
        std::sort(samples.begin(), samples.end());
        first = true;
        std::map<std::string, int> per;
        for (auto &s : samples) {
            std::string key = s.substr(0, s.find(' '));
            if (++per[key] > 2) continue;
            e << (first ? "" : ",") << "\n   " << jstr(s);
            first = false;
        }
        if (violations) { e << (first ? "" : ",") << "\n   " << jstr("violation: " + violationMsg); first = false; }
        e << "\n  ]\n },\n \"assumptions\": [";
        for (std::size_t i = 0; i < su.assumptions.size(); ++i) e << (i ? ", " : "") << jstr(su.assumptions[i]);
        e << "],\n \"wall_s\": " << now() - t0 << ",\n \"violations\": " << violations << "\n}\n";
        e.close();
        std::rename((evidence + ".tmp").c_str(), evidence.c_str());
    }
    std::fprintf(stderr, "[%s] %ld cases, %zu distinct non-trivial, %.1f s%s\n", su.id, evals, hashes.size(), now() - t0, capped ? " (time cap reached)" : "");
    for (auto &l : labels) std::fprintf(stderr, "    %8ld  %s\n", l.second, l.first.c_str());
    return exitCode;
}
