#include "pbt.h"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <atomic>
#include <algorithm>
#include <chrono>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <set>

namespace pbt
{
    std::function<void(uint64_t)> seedHook;
    uint64_t Src::draw(uint64_t n)
    {
        if (n == 0) n = 1;
        if (out.size() >= maxDraws) throw Overrun();
        uint64_t v;
        if (replay) v = pos < rec.size() ? rec[pos] : 0;
        else { s += 0x9E3779B97F4A7C15ull; v = mix(s); }
        pos++;
        if (replay) { if (v >= n) v = v % n; }
        else v = (uint64_t)(((unsigned __int128)v * n) >> 64);
        out.push_back(v);
        return v;
    }
    long Src::integer(long lo, long hi) { if (hi < lo) hi = lo; return lo + (long)draw((uint64_t)(hi - lo) + 1); }
    bool Src::chance(double p)
    {
        // false is the simple value
        uint64_t v = draw(1000);
        return v >= 1000 - (uint64_t)(p * 1000 + 0.5);
    }
    double Src::unit() { return (double)draw(1ull << 24) / (double)(1ull << 24); }
    double Src::uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
    double Src::real(double lo, double hi)
    {
        uint64_t k = draw(10);
        if (k <= 1)
        {
            static const double sp[] = {0, 1, -1, 0.5, -0.5, 2, 10, -10, 100};
            uint64_t j = draw(12);
            if (j < 9 && sp[j] >= lo && sp[j] <= hi) return sp[j];
            if (j == 9) return lo;
            if (j == 10) return hi;
            return 0.5 * (lo + hi);
        }
        if (k <= 3) return lo + (hi - lo) * (double)draw(17) / 16.0;
        return uniform(lo, hi);
    }
    size_t Src::weighted(const std::vector<int>& w)
    {
        uint64_t t = 0;
        for (int x : w) t += x;
        uint64_t v = draw(t);
        for (size_t i = 0; i < w.size(); i++) { if (v < (uint64_t)w[i]) return i; v -= w[i]; }
        return 0;
    }
    std::vector<unsigned char> Src::bytes(size_t n)
    {
        std::vector<unsigned char> r(n);
        for (auto& b : r) b = (unsigned char)draw(256);
        return r;
    }

    void Ctx::fail(const std::string& key, const std::string& msg) const { throw Failure{key, msg}; }
    void Ctx::near(double a, double b, double tol, const std::string& key, const std::string& what) const
    {
        if (!(std::fabs(a - b) <= tol))
        {
            std::ostringstream o;
            o.precision(9);
            o << what << ": got " << a << ", expected " << b << " (tolerance " << tol << ")";
            fail(key, o.str());
        }
    }

    namespace
    {
        const int MAXA = 64, MAXW = 64, MAXL = 400, MAXF = 64, MAXS = 6, MAXC = 400000;
        const size_t BLOOM = 1u << 26; // bits

        struct SharedLabel { std::atomic<int> used; char name[96]; std::atomic<uint64_t> n; };
        struct SharedFail { std::atomic<int> used; int aspect; uint64_t index; char key[128]; char msg[1500]; };
        struct Shared
        {
            std::atomic<uint64_t> next[MAXA], done[MAXA], disc[MAXA], fails[MAXA], nontriv[MAXA], evals[MAXA];
            std::atomic<int64_t> curAspect[MAXW];
            std::atomic<uint64_t> curIndex[MAXW];
            SharedLabel labels[MAXL];
            std::atomic<int> nfail;
            SharedFail fl[MAXF];
            std::atomic<int> nsample[MAXA];
            char samples[MAXA][MAXS][400];
            std::atomic<uint8_t> bloom[BLOOM / 8];
            // single-case execution area
            std::atomic<int> one_status; // 0 unfinished 1 pass 2 fail 3 discard
            char one_key[128], one_msg[1500], one_desc[600];
            uint64_t one_n;
            uint64_t one_rec[MAXC];
            char known[32][64]; std::atomic<uint64_t> knownN[32]; std::atomic<int> nknown;
        };
        Shared* sh;
        int outfd = 1;

        void say(const std::string& s)
        {
            std::string t = s + "\n";
            ssize_t r = write(outfd, t.data(), t.size()); (void)r;
        }
        void cpy(char* d, const std::string& s, size_t n)
        {
            size_t k = std::min(n - 1, s.size());
            memcpy(d, s.data(), k);
            d[k] = 0;
        }
        std::string esc(const std::string& s)
        {
            std::string r;
            for (unsigned char c : s)
            {
                if (c == '"' || c == '\\') { r += '\\'; r += c; }
                else if (c == '\n') r += "\\n";
                else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
                else r += c;
            }
            return r;
        }
        double now()
        {
            return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
        }
        std::string scratchRoot;
        std::string myScratch;

        uint64_t caseSeed(uint64_t seed, const std::string& a, uint64_t i)
        {
            uint64_t h = mix(seed * 0x1234567 + 17);
            for (unsigned char c : a) h = mix(h ^ c);
            return mix(h ^ mix(i));
        }
        void addLabel(const std::string& l, uint64_t n)
        {
            for (int i = 0; i < MAXL; i++)
            {
                auto& e = sh->labels[i];
                int u = e.used.load();
                if (u == 2) { if (l.compare(0, 95, e.name) == 0) { e.n += n; return; } continue; }
                if (u == 0)
                {
                    int z = 0;
                    if (e.used.compare_exchange_strong(z, 1)) { cpy(e.name, l, 96); e.n = n; e.used = 2; return; }
                }
                while (e.used.load() == 1) ;
                if (l.compare(0, 95, e.name) == 0) { e.n += n; return; }
            }
        }
        bool bloomAdd(uint64_t h)
        {
            h %= BLOOM;
            uint8_t m = (uint8_t)(1u << (h & 7));
            return !(sh->bloom[h >> 3].fetch_or(m) & m);
        }
        void addKnown(const std::string& id, uint64_t n)
        {
            for (int i = 0; i < sh->nknown.load(); i++) if (id == sh->known[i]) { sh->knownN[i] += n; return; }
            int i = sh->nknown.fetch_add(1);
            if (i < 32) { cpy(sh->known[i], id, 64); sh->knownN[i] += n; }
        }
        struct Result { int status; std::string key, msg; };

        Result runOne(const Aspect& a, Src& src, Ctx& ctx)
        {
            try
            {
                // the code under test draws from process-wide generators: make them part of the case
                uint64_t cs = src.draw(1u << 16);
                srand((unsigned)cs);
                if (seedHook) seedHook(cs);
                a.fn(src, ctx);
                return {1, "", ""};
            }
            catch (Discard&) { return {3, "", ""}; }
            catch (Overrun&) { return {3, "", ""}; }
            catch (Failure& f) { return {2, f.key, f.msg}; }
            catch (std::exception& e) { return {2, "unexpected-exception", std::string("exception escaped: ") + e.what()}; }
            catch (...) { return {2, "unexpected-exception", "unknown exception escaped"}; }
        }
        void limits(double cpu)
        {
            struct rlimit r;
            r.rlim_cur = r.rlim_max = 0;
            setrlimit(RLIMIT_CORE, &r);
            struct itimerval t;
            memset(&t, 0, sizeof t);
            t.it_value.tv_sec = (long)cpu;
            t.it_value.tv_usec = (long)((cpu - (long)cpu) * 1e6);
            setitimer(ITIMER_PROF, &t, nullptr); // SIGPROF: default action terminates
        }
        void quietChild()
        {
            signal(SIGPROF, SIG_DFL);
            signal(SIGINT, SIG_DFL);
            struct rlimit r;
            r.rlim_cur = r.rlim_max = 0;
            setrlimit(RLIMIT_CORE, &r);
            if (!getenv("PBT_NOASLIMIT"))
            {
                r.rlim_cur = r.rlim_max = 6ull << 30;
                setrlimit(RLIMIT_AS, &r);
            }
        }

        void worker(const Suite& su, const std::vector<int>& order, bool th, uint64_t seed, int w, double deadline)
        {
            quietChild();
            // interleave aspects so that a time cap hits all of them equally
            std::vector<int> live = order;
            size_t k = (size_t)w;
            while (!live.empty())
            {
                if (now() > deadline) break;
                k = (k + 1) % live.size();
                int ai = live[k];
                const Aspect& a = su.aspects[ai];
                uint64_t total = th ? a.thorough : a.quick;
                // batch
                uint64_t batch = std::max<uint64_t>(1, std::min<uint64_t>(16, total / 200));
                uint64_t b = sh->next[ai].fetch_add(batch);
                if (b >= total) { live.erase(live.begin() + k); continue; }
                for (uint64_t i = b; i < std::min(total, b + batch); i++)
                {
                    if (now() > deadline) return;
                    sh->curIndex[w] = i;
                    sh->curAspect[w] = ai;
                    limits(a.cpuLimit);
                    Src src(caseSeed(seed, a.name, i));
                    Ctx ctx(src, th, i);
                    Result r = runOne(a, src, ctx);
                    sh->curAspect[w] = -1;
                    for (auto& kn : ctx.knowns) addKnown(kn.first, kn.second);
                    if (r.status == 3) { sh->disc[ai]++; continue; }
                    sh->done[ai]++;
                    for (auto& l : ctx.labels) addLabel(a.name + ":" + l.first, l.second);
                    if (ctx.nt)
                    {
                        uint64_t h = mix(ai + 1);
                        for (uint64_t v : src.record()) h = mix(h ^ v);
                        if (bloomAdd(h)) sh->nontriv[ai]++;
                        if (!ctx.desc.empty())
                        {
                            int s = sh->nsample[ai].load();
                            if (s < MAXS && (i % 7 == 0 || i < 40))
                            {
                                s = sh->nsample[ai].fetch_add(1);
                                if (s < MAXS) cpy(sh->samples[ai][s], ctx.desc, 400);
                            }
                        }
                    }
                    if (r.status == 2)
                    {
                        uint64_t nf = sh->fails[ai].fetch_add(1);
                        if (nf < 8)
                        {
                            int f = sh->nfail.fetch_add(1);
                            if (f < MAXF)
                            {
                                auto& e = sh->fl[f];
                                e.aspect = ai; e.index = i;
                                cpy(e.key, r.key, 128);
                                cpy(e.msg, r.msg, 1500);
                                e.used = 1;
                            }
                        }
                        if (nf > 200) sh->next[ai] = total; // enough evidence
                    }
                }
            }
            limits(0);
        }

        // Run one case in a forked child. Returns status; fills record.
        Result isolated(const Aspect& a, bool th, uint64_t ci, const std::function<Src()>& mk,
                        std::vector<uint64_t>* rec, std::string* desc)
        {
            sh->one_status = 0;
            sh->one_n = 0;
            sh->one_key[0] = sh->one_msg[0] = sh->one_desc[0] = 0;
            pid_t p = fork();
            if (p == 0)
            {
                quietChild();
                limits(a.cpuLimit);
                Src src = mk();
                Ctx ctx(src, th, ci);
                Result r = runOne(a, src, ctx);
                cpy(sh->one_key, r.key, 128);
                cpy(sh->one_msg, r.msg, 1500);
                cpy(sh->one_desc, ctx.desc, 600);
                size_t n = std::min<size_t>(src.record().size(), MAXC);
                memcpy(sh->one_rec, src.record().data(), n * 8);
                sh->one_n = n;
                sh->one_status = r.status;
                _exit(0);
            }
            int st = 0;
            double t0 = now();
            bool killed = false;
            while (true)
            {
                pid_t r = waitpid(p, &st, WNOHANG);
                if (r == p) break;
                if (now() - t0 > 3 * a.cpuLimit + 60) { kill(p, SIGKILL); waitpid(p, &st, 0); killed = true; break; }
                usleep(now() - t0 < 0.02 ? 200 : 2000);
            }
            std::string cmd = scratchRoot + "/p" + std::to_string(p);
            Result r;
            if (!killed && WIFEXITED(st) && sh->one_status.load() != 0)
            {
                r = {sh->one_status.load(), sh->one_key, sh->one_msg};
                if (rec) rec->assign(sh->one_rec, sh->one_rec + sh->one_n);
                if (desc) *desc = sh->one_desc;
            }
            else if (WIFSIGNALED(st))
            {
                int s = WTERMSIG(st);
                if (s == SIGPROF || killed) r = {2, "hang", "no result within " + std::to_string(a.cpuLimit) + " s of CPU time"};
                else r = {2, std::string("crash"), std::string("killed by signal ") + strsignal(s)};
            }
            else r = {2, "crash", "process exited with status " + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : -1)};
            return r;
        }

        void rmTree(const std::string& d)
        {
            DIR* h = opendir(d.c_str());
            if (h)
            {
                while (auto* e = readdir(h))
                {
                    std::string n = e->d_name;
                    if (n == "." || n == "..") continue;
                    std::string p = d + "/" + n;
                    struct stat st;
                    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmTree(p);
                    else unlink(p.c_str());
                }
                closedir(h);
            }
            rmdir(d.c_str());
        }
        void cleanup()
        {
            if (!scratchRoot.empty() && scratchRoot.find("/pbt.") != std::string::npos) rmTree(scratchRoot);
        }

        std::vector<uint64_t> shrink(const Aspect& a, bool th, uint64_t ci, std::vector<uint64_t> best, const std::string& key,
                                     double budget, int* steps)
        {
            double t0 = now();
            auto ok = [&](const std::vector<uint64_t>& c) -> bool
            {
                if (now() - t0 > budget) return false;
                (*steps)++;
                std::vector<uint64_t> r;
                Result x = isolated(a, th, ci, [&] { return Src(c); }, &r, nullptr);
                if (x.status == 2 && x.key == key)
                {
                    if (x.key == "crash" || x.key == "hang") r = c;
                    while (!r.empty() && r.back() == 0) r.pop_back();
                    if (r.size() < best.size() || (r.size() == best.size() && r < best)) { best = r; }
                    else return false;
                    return true;
                }
                return false;
            };
            bool progress = true;
            while (progress && now() - t0 < budget)
            {
                progress = false;
                for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2)
                {
                    for (size_t i = 0; i + len <= best.size() && now() - t0 < budget;)
                    {
                        std::vector<uint64_t> c = best;
                        c.erase(c.begin() + i, c.begin() + i + len);
                        if (ok(c)) progress = true;
                        else i += len;
                    }
                }
                for (size_t len = std::max<size_t>(1, best.size() / 4); len >= 1; len /= 2)
                {
                    for (size_t i = 0; i + len <= best.size() && now() - t0 < budget; i += len)
                    {
                        std::vector<uint64_t> c = best;
                        bool any = false;
                        for (size_t j = i; j < i + len; j++) { any = any || c[j]; c[j] = 0; }
                        if (any && ok(c)) progress = true;
                    }
                }
                for (size_t i = 0; i < best.size() && now() - t0 < budget; i++)
                {
                    if (best[i] == 0) continue;
                    uint64_t lo = 0, hi = best[i];
                    while (lo + 1 < hi && now() - t0 < budget)
                    {
                        uint64_t mid = lo + (hi - lo) / 2;
                        std::vector<uint64_t> c = best;
                        if (i >= c.size()) break;
                        c[i] = mid;
                        if (ok(c)) { hi = mid; progress = true; if (i >= best.size()) break; }
                        else lo = mid;
                    }
                    // also try a small decrement
                    if (i < best.size() && best[i] > 0)
                    {
                        std::vector<uint64_t> c = best;
                        c[i]--;
                        if (ok(c)) progress = true;
                    }
                }
            }
            return best;
        }
    }

    std::string scratch()
    {
        static pid_t owner = 0;
        if (owner != getpid() || myScratch.empty())
        {
            owner = getpid();
            myScratch = scratchRoot + "/p" + std::to_string((long)getpid());
            mkdir(myScratch.c_str(), 0700);
        }
        return myScratch;
    }

    int run(int argc, char** argv, Suite& su)
    {
        uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
        std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
        std::string out, replay, only, replayDir = ".";
        int jobs = 8;
        double cap = -1, scale = 1;
        bool verbose = false, list = false;
        for (int i = 1; i < argc; i++)
        {
            std::string a = argv[i];
            auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--seed") seed = strtoull(nx().c_str(), nullptr, 10);
            else if (a == "--tier") tier = nx();
            else if (a == "--out") out = nx();
            else if (a == "--replay") replay = nx();
            else if (a == "--only") only = nx();
            else if (a == "--jobs") jobs = atoi(nx().c_str());
            else if (a == "--cap") cap = atof(nx().c_str());
            else if (a == "--scale") scale = atof(nx().c_str());
            else if (a == "--replay-dir") replayDir = nx();
            else if (a == "-v") verbose = true;
            else if (a == "--list") list = true;
        }
        if (list) { for (auto& a : su.aspects) std::cout << a.name << " " << a.quick << " " << a.thorough << "\n"; return 0; }
        bool th = tier == "thorough";
        for (auto& a : su.aspects) { a.quick = std::max<uint64_t>(1, (uint64_t)(a.quick * scale)); a.thorough = std::max<uint64_t>(1, (uint64_t)(a.thorough * scale)); }
        if (cap < 0) cap = th ? su.thoroughCap : su.quickCap;
        outfd = dup(1);
        char tmpl[] = "/tmp/pbt.XXXXXX";
        scratchRoot = mkdtemp(tmpl);
        sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (sh == MAP_FAILED) { perror("mmap"); return 2; }
        if (!verbose)
        {
            int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 1);
            dup2(dn, 2);
            close(dn);
        }
        if (su.init) su.init();
        std::cout.flush();

        if (!replay.empty())
        {
            std::ifstream f(replay);
            std::string line, aspect;
            std::vector<uint64_t> rec;
            std::stringstream ss;
            ss << f.rdbuf();
            std::string t = ss.str();
            auto fld = [&](const std::string& k) -> size_t { size_t p = t.find("\"" + k + "\""); return p == std::string::npos ? p : t.find(':', p) + 1; };
            size_t p = fld("aspect");
            if (p == std::string::npos) { say("bad replay file"); cleanup(); return 2; }
            p = t.find('"', p) + 1;
            aspect = t.substr(p, t.find('"', p) - p);
            p = fld("choices");
            p = t.find('[', p) + 1;
            std::stringstream cs(t.substr(p, t.find(']', p) - p));
            std::string tok;
            while (std::getline(cs, tok, ',')) if (tok.find_first_of("0123456789") != std::string::npos) rec.push_back(strtoull(tok.c_str(), nullptr, 10));
            for (auto& a : su.aspects) if (a.name == aspect)
                {
                    std::string d;
                    Result r = isolated(a, th, 0, [&] { return Src(rec); }, nullptr, &d);
                    say("aspect " + aspect + ": " + (r.status == 1 ? "pass" : r.status == 3 ? "discard" : "FAIL [" + r.key + "] " + r.msg));
                    if (!d.empty()) say("case: " + d);
                    if (r.status == 2) say("VIOLATION property=" + su.property + " replay=" + replay);
                    cleanup();
                    return r.status == 2 ? 1 : 0;
                }
            say("unknown aspect " + aspect);
            cleanup();
            return 2;
        }

        std::vector<int> order;
        for (size_t i = 0; i < su.aspects.size(); i++) if (only.empty() || su.aspects[i].name.find(only) != std::string::npos) order.push_back((int)i);
        double t0 = now(), deadline = t0 + cap;
        jobs = std::min(jobs, MAXW);
        std::map<pid_t, int> kids;
        auto spawn = [&](int w)
        {
            pid_t p = fork();
            if (p == 0)
            {
                worker(su, order, th, seed, w, deadline);
                _exit(0);
            }
            kids[p] = w;
        };
        for (int w = 0; w < jobs; w++) { sh->curAspect[w] = -1; spawn(w); }
        struct Crash { int aspect; uint64_t index; std::string key; };
        std::vector<Crash> crashes;
        while (!kids.empty())
        {
            int st = 0;
            pid_t p = waitpid(-1, &st, 0);
            if (p < 0) break;
            auto it = kids.find(p);
            if (it == kids.end()) continue;
            int w = it->second;
            kids.erase(it);
            int ai = (int)sh->curAspect[w].load();
            if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0) || ai >= 0)
            {
                if (ai >= 0)
                {
                    sh->done[ai]++;
                    bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF;
                    crashes.push_back({ai, sh->curIndex[w].load(), hang ? "hang" : "crash"});
                    uint64_t nf = sh->fails[ai].fetch_add(1);
                    if (nf > 8) sh->next[ai] = 1ull << 62;
                }
                sh->curAspect[w] = -1;
                if (now() < deadline && crashes.size() < 60) spawn(w);
            }
        }
        double searchEnd = now();

        // confirm, shrink, report
        int violations = 0;
        std::set<std::string> seen;
        struct F { int aspect; uint64_t index; std::string key, msg; };
        std::vector<F> fs;
        for (int i = 0; i < std::min(MAXF, sh->nfail.load()); i++)
            if (sh->fl[i].used.load()) fs.push_back({sh->fl[i].aspect, sh->fl[i].index, sh->fl[i].key, sh->fl[i].msg});
        for (auto& c : crashes) fs.push_back({c.aspect, c.index, c.key, ""});
        std::stable_sort(fs.begin(), fs.end(), [](const F & a, const F & b) { return a.aspect != b.aspect ? a.aspect < b.aspect : a.index < b.index; });
        double reportBudget = now() + (th ? 240 : 100);
        std::vector<std::string> unconfirmed;
        for (auto& f : fs)
        {
            const Aspect& a = su.aspects[f.aspect];
            std::string id = a.name + "/" + f.key;
            if (seen.count(id)) continue;
            if (violations >= 6 || (violations > 0 && now() > reportBudget)) break;
            std::vector<uint64_t> rec;
            std::string desc, msg;
            int confirmed = 0;
            int need = f.key == "hang" ? 1 : 3;
            for (int k = 0; k < need; k++)
            {
                uint64_t cs = caseSeed(seed, a.name, f.index);
                Result r = isolated(a, th, f.index, [&] { return Src(cs); }, &rec, &desc);
                if (r.status == 2) { confirmed++; if (r.key == f.key) msg = r.msg; else { f.key = r.key; msg = r.msg; } }
            }
            if (confirmed < need)
            {
                unconfirmed.push_back(id + " case " + std::to_string(f.index) + ": " + f.msg);
                continue;
            }
            id = a.name + "/" + f.key;
            if (seen.count(id)) continue;
            seen.insert(id);
            if (rec.empty() && (f.key == "crash" || f.key == "hang"))
            {
                // recover the choices: replay the PRNG record through a shared buffer is not possible after a crash,
                // so use the raw PRNG stream (bounded by need: draws are taken modulo the bound)
                // -> write the record while drawing
                pid_t p = fork();
                if (p == 0)
                {
                    quietChild();
                    limits(a.cpuLimit);
                    Src src(caseSeed(seed, a.name, f.index));
                    // run in a thread-free way: install a handler that dumps the record
                    static Src* g;
                    g = &src;
                    auto h = [](int)
                    {
                        size_t n = std::min<size_t>(g->record().size(), MAXC);
                        memcpy(sh->one_rec, g->record().data(), n * 8);
                        sh->one_n = n;
                        _exit(0);
                    };
                    static char alt[65536];
                    stack_t ss;
                    memset(&ss, 0, sizeof ss);
                    ss.ss_sp = alt;
                    ss.ss_size = sizeof alt;
                    sigaltstack(&ss, nullptr);
                    struct sigaction sa;
                    memset(&sa, 0, sizeof sa);
                    sa.sa_handler = h;
                    sa.sa_flags = SA_ONSTACK;
                    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF}) sigaction(s, &sa, nullptr);
                    Ctx ctx(src, th, f.index);
                    runOne(a, src, ctx);
                    h(0);
                }
                sh->one_n = 0;
                int st;
                waitpid(p, &st, 0);
                rec.assign(sh->one_rec, sh->one_rec + sh->one_n);
            }
            int steps = 0;
            double sb = f.key == "hang" ? 0 : (th ? 60 : 15);
            if (seen.size() > 2) sb = std::min(sb, 5.0);
            std::vector<uint64_t> best = rec;
            // trailing zeros are implied
            if (!best.empty() && sb > 0) best = shrink(a, th, f.index, rec, f.key, sb, &steps);
            Result fin = isolated(a, th, f.index, [&] { return Src(best); }, nullptr, &desc);
            if (fin.status == 2) msg = fin.msg;
            else best = rec;
            std::string fn = replayDir + "/" + su.property + "-" + a.name + "-" + std::to_string(seed) + "-" + std::to_string(f.index) + ".json";
            std::ofstream o(fn);
            o << "{\"property\":\"" << su.property << "\",\"aspect\":\"" << a.name << "\",\"key\":\"" << esc(f.key) << "\",\"message\":\""
              << esc(msg) << "\",\"case\":\"" << esc(desc) << "\",\"tier\":\"" << tier << "\",\"seed\":" << seed << ",\"index\":" << f.index
              << ",\"shrink_steps\":" << steps << ",\"original_draws\":" << rec.size() << ",\"choices\":[";
            for (size_t i = 0; i < best.size(); i++) o << (i ? "," : "") << best[i];
            o << "]}\n";
            o.close();
            say("FAIL " + a.name + " [" + f.key + "] " + msg + (desc.empty() ? "" : "  CASE " + desc) + "  (draws " + std::to_string(rec.size()) + " -> "
                + std::to_string(best.size()) + ")");
            say("VIOLATION property=" + su.property + " replay=" + fn);
            violations++;
        }
        for (auto& u : unconfirmed) say("UNCONFIRMED " + u);

        // summary
        uint64_t ev = 0, nt = 0, di = 0;
        std::ostringstream js;
        js << "{\"aspects\":[";
        for (size_t i = 0; i < su.aspects.size(); i++)
        {
            uint64_t total = th ? su.aspects[i].thorough : su.aspects[i].quick;
            ev += sh->done[i];
            nt += sh->nontriv[i];
            di += sh->disc[i];
            js << (i ? "," : "") << "{\"name\":\"" << su.aspects[i].name << "\",\"planned\":" << total << ",\"evaluated\":" << sh->done[i] << ",\"discarded\":"
               << sh->disc[i] << ",\"nontrivial\":" << sh->nontriv[i] << ",\"failures\":" << sh->fails[i] << ",\"samples\":[";
            for (int s = 0; s < std::min(MAXS, sh->nsample[i].load()); s++) js << (s ? "," : "") << "\"" << esc(sh->samples[i][s]) << "\"";
            js << "]}";
        }
        js << "],\"labels\":{";
        bool first = true;
        for (int i = 0; i < MAXL; i++) if (sh->labels[i].used == 2)
            {
                js << (first ? "" : ",") << "\"" << esc(sh->labels[i].name) << "\":" << sh->labels[i].n;
                first = false;
            }
        js << "},\"known\":{";
        for (int i = 0; i < std::min(32, sh->nknown.load()); i++) js << (i ? "," : "") << "\"" << esc(sh->known[i]) << "\":" << sh->knownN[i];
        js << "},\"evaluations\":" << ev << ",\"distinct_nontrivial\":" << nt << ",\"discarded\":" << di << ",\"violations\":" << violations
           << ",\"unconfirmed\":" << unconfirmed.size() << ",\"search_s\":" << (searchEnd - t0) << ",\"rule\":\"" << esc(su.rule) << "\",\"seed\":" << seed << ",\"tier\":\"" << tier << "\"}";
        if (!out.empty()) { std::ofstream o(out); o << js.str() << "\n"; }
        std::ostringstream sum;
        sum << su.property << " " << tier << " seed=" << seed << ": " << ev << " cases (" << nt << " distinct non-trivial, " << di << " discarded) in "
            << (searchEnd - t0) << " s, violations " << violations;
        say(sum.str());
        if (verbose || getenv("PBT_SUMMARY"))
        {
            for (size_t i = 0; i < su.aspects.size(); i++)
            {
                std::ostringstream l;
                l << "  " << su.aspects[i].name << ": " << sh->done[i] << "/" << (th ? su.aspects[i].thorough : su.aspects[i].quick) << " eval, " << sh->disc[i] << " disc, " << sh->nontriv[i] << " nontrivial, "
                  << sh->fails[i] << " fail";
                say(l.str());
            }
            for (int i = 0; i < MAXL; i++) if (sh->labels[i].used == 2) say(std::string("    ") + sh->labels[i].name + " = " + std::to_string(sh->labels[i].n.load()));
        }
        cleanup();
        return violations ? 1 : 0;
    }
}
