// Small property-based testing engine ("choice sequence" style).
//
// A test case is a function of a sequence of bounded draws (Src).  In search mode the draws come from a PRNG
// seeded by (VERIF_SEED, aspect, case index) and are recorded; in replay mode they come from the record.
// Shrinking edits the record (deletes, zeroes, lowers draws), so every generator shrinks for free, and the
// minimal record is the replay file.
//
// Cases run in forked workers: a crash or hang of the code under test is a failure of that case, not of the run.
#pragma once
#include <cstdint>
#include <cmath>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <stdexcept>
#include <limits>

namespace pbt
{
    inline uint64_t mix(uint64_t x)
    {
        x += 0x9E3779B97F4A7C15ull;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }

    struct Discard {};                       // precondition of the case not met
    struct Failure                           // the property is violated
    {
        std::string key, msg;
    };
    struct Overrun {};                       // too many draws

    // Source of choices.
    class Src
    {
    public:
        explicit Src(uint64_t seed) : s(seed), replay(false) {}
        explicit Src(const std::vector<uint64_t>& r) : s(0), replay(true), rec(r) {}

        // uniform in [0, n)
        uint64_t draw(uint64_t n);
        long integer(long lo, long hi);                       // inclusive; shrinks towards lo
        bool chance(double p);                                // true with probability p; shrinks to false
        double unit();                                        // [0,1)
        double real(double lo, double hi);                    // mixes special values, a coarse grid and uniform
        double uniform(double lo, double hi);                 // uniform only
        size_t index(size_t n) { return (size_t)draw(n); }
        template<class T> const T& pick(const std::vector<T>& v) { return v.at(index(v.size())); }
        // pick an index with integer weights
        size_t weighted(const std::vector<int>& w);
        std::vector<unsigned char> bytes(size_t n);

        const std::vector<uint64_t>& record() const { return out; }
        size_t maxDraws = 400000;
    private:
        uint64_t s;
        bool replay;
        std::vector<uint64_t> rec, out;
        size_t pos = 0;
    };

    struct Label;
    // Context of a running case.
    class Ctx
    {
    public:
        Src& src;
        bool thorough;
        uint64_t caseIndex;
        explicit Ctx(Src& s, bool th, uint64_t ci) : src(s), thorough(th), caseIndex(ci) {}

        // Case statistics
        void label(const std::string& l) { labels[l]++; }
        void nontrivial(bool b = true) { nt = nt || b; }
        void describe(const std::string& d) { desc = d; }
        // A failing observation that is listed as a known finding (never called for anything else).
        void known(const std::string& id) { knowns[id]++; }

        [[noreturn]] void fail(const std::string& key, const std::string& msg) const;
        void check(bool ok, const std::string& key, const std::string& msg) const { if (!ok) fail(key, msg); }
        template<class F> void checkf(bool ok, const std::string& key, F f) const
        {
            if (!ok)
            {
                std::ostringstream o; o.precision(9); f(o); fail(key, o.str());
            }
        }
        void near(double a, double b, double tol, const std::string& key, const std::string& what) const;
        [[noreturn]] void discard() const { throw Discard(); }
        void require(bool b) const { if (!b) throw Discard(); }

        std::map<std::string, int> labels, knowns;
        std::string desc;
        bool nt = false;
    };

    struct Aspect
    {
        std::string name;
        uint64_t quick, thorough;             // number of cases
        std::function<void(Src&, Ctx&)> fn;
        double cpuLimit;                      // seconds per case before it counts as a hang
    };

    struct Suite
    {
        std::string property;
        std::string rule;                     // what "non-trivial" means
        std::vector<Aspect> aspects;
        std::function<void()> init;           // run once in the parent before forking
        double quickCap = 60, thoroughCap = 600;
        void add(const std::string& n, uint64_t q, uint64_t t, std::function<void(Src&, Ctx&)> f, double cpu = 20)
        {
            aspects.push_back(Aspect{n, q, t, f, cpu});
        }
    };

    // called before each case with a drawn seed (seed the code's own random generators here)
    extern std::function<void(uint64_t)> seedHook;

    int run(int argc, char** argv, Suite& suite);

    // Scratch directory of the current process (created on demand below the run's scratch root, removed at the end).
    std::string scratch();
}
