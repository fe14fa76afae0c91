// Small property-based-testing engine: every random decision of a case is drawn from one recorded
// sequence of bounded integer choices (Src).  A case is therefore a pure function of that sequence:
// it is generated from (VERIF_SEED, sub-property, case index), shrunk by editing the sequence, and
// replayed from it.  See main.cpp for the driver (workers, crash capture, shrinking, evidence).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Fail { std::string msg; };
struct Discard { };

inline std::uint64_t splitmix(std::uint64_t &s) {
    std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
    std::uint64_t s = a * 0x9E3779B97F4A7C15ull + b;
    splitmix(s);
    return splitmix(s);
}

// Recorded choices live in memory shared with the driver, so that they survive a crash of the worker.
struct Record {
    static constexpr std::uint32_t MAX = 1u << 20;
    std::uint32_t n = 0;
    std::uint32_t overflow = 0;
    char msg[8192];
    char desc[65536];
    std::uint64_t c[MAX];
};

class Src {
public:
    Src(Record *rec, std::uint64_t seed) : rec_(rec), state_(seed) { rec_->n = 0; rec_->overflow = 0; }
    Src(Record *rec, const std::vector<std::uint64_t> *replay) : rec_(rec), replay_(replay) { rec_->n = 0; rec_->overflow = 0; }
    Src(Record *rec, const std::uint8_t *data, std::size_t size) : rec_(rec), bytes_(data), nbytes_(size) { rec_->n = 0; rec_->overflow = 0; }

    // an integer in [0, bound]; 0 is the simplest value
    std::uint64_t choice(std::uint64_t bound) {
        std::uint64_t v = 0;
        if (replay_) {
            if (pos_ < replay_->size()) v = (*replay_)[pos_];
            ++pos_;
            if (v > bound) v = bound == ~0ull ? v : v % (bound + 1);
        } else if (bytes_) {
            std::uint64_t b = bound;
            while (b && pos_ < nbytes_) { v = (v << 8) | bytes_[pos_++]; b >>= 8; }
            if (v > bound) v %= bound + 1;
        } else {
            std::uint64_t r = splitmix(state_);
            v = bound == ~0ull ? r : r % (bound + 1);
        }
        if (rec_->n < Record::MAX) rec_->c[rec_->n++] = v;
        else { rec_->overflow = 1; throw Discard{}; }
        return v;
    }
    int range(int lo, int hi) { return lo + int(choice(std::uint64_t(hi - lo))); }          // simplest: lo
    bool chance(int num, int den) { return choice(den - 1) >= std::uint64_t(den - num); }   // simplest: false
    template <class T> T pick(const std::vector<T> &v) { return v[choice(v.size() - 1)]; }
    double unit() { return double(choice((1u << 24) - 1)) / double(1u << 24); }              // [0, 1)
    // a real in [lo, hi]; the simplest value is the one closest to zero
    double real(double lo, double hi) {
        if (lo >= 0) return lo + (hi - lo) * unit();
        if (hi <= 0) return hi - (hi - lo) * unit();
        double u = unit();
        bool neg = choice(1);
        return neg ? lo * u : hi * u;
    }
    // log-uniform in [lo, hi], simplest: lo
    double logReal(double lo, double hi) { return lo * std::pow(hi / lo, unit()); }
    // approximately normal
    double gauss() {
        double s = 0;
        for (int i = 0; i < 4; ++i) s += real(-1, 1);
        return s * 0.8660254037844386;   // variance 4/3 * 3/4 = 1
    }
    std::uint32_t drawn() const { return rec_->n; }
    const Record *record() const { return rec_; }

private:
    Record *rec_;
    std::uint64_t state_ = 0;
    const std::vector<std::uint64_t> *replay_ = nullptr;
    const std::uint8_t *bytes_ = nullptr;
    std::size_t nbytes_ = 0, pos_ = 0;
};

// writes straight into the shared record, so that the description of a case survives its crash
class DescBuf : public std::streambuf {
public:
    void target(char *p, std::size_t n) { std::memset(p, 0, n); setp(p, p + n - 1); }
};

class Ctx {
    DescBuf buf_;
public:
    Ctx() : desc(&buf_) { desc.setstate(std::ios::badbit); desc.precision(9); }
    void describeInto(char *p, std::size_t n) { buf_.target(p, n); desc.clear(); }
    std::ostream desc;                    // costs nothing unless the case is described
    bool nontrivial_ = false;
    bool verbose = false;                 // replay / sample: properties describe the case
    std::vector<std::string> labels;
    int tier = 0;                         // 0 quick, 1 thorough

    void label(const std::string &l) { labels.push_back(l); }
    void label(const std::string &l, bool on) { if (on) labels.push_back(l); }
    void nontrivial(bool on = true) { nontrivial_ = nontrivial_ || on; }
};

#define PBT_FAIL(...) do { std::ostringstream pbt_os_; pbt_os_.precision(9); pbt_os_ << __VA_ARGS__; throw pbt::Fail{pbt_os_.str()}; } while (0)
#define PBT_CHECK(cond, ...) do { if (!(cond)) { std::ostringstream pbt_os_; pbt_os_.precision(9); pbt_os_ << #cond << ": " << __VA_ARGS__; throw pbt::Fail{pbt_os_.str()}; } } while (0)

struct Prop {
    const char *name;
    std::function<void(Src &, Ctx &)> fn;
    int quick;          // number of cases, quick tier
    int thorough;       // number of cases, thorough tier
};

struct Suite {
    const char *id;
    const char *rule;                              // what makes a case non-trivial
    std::vector<std::string> assumptions;
    std::vector<Prop> props;
    int cpuLimitSeconds = 20;                      // CPU time of a single case before it counts as not terminating
};

Suite suite();                                      // defined by each property's translation unit

} // namespace pbt
