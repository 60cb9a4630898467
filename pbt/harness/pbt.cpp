#include "pbt.h"
#include <chrono>
#include <atomic>
#include <fcntl.h>
#include <sched.h>
#include <time.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {

static const size_t CrumbMax = 1 << 17;
struct CrumbMap {
    uint64_t caseNo;
    uint64_t active;
    uint64_t n;
    uint64_t v[CrumbMax];
};
static CrumbMap *g_crumb = nullptr;
void crumbPush(uint64_t v) {
    if (g_crumb && g_crumb->n < CrumbMax) g_crumb->v[g_crumb->n++] = v;
}
void crumbReset(uint64_t c) {
    if (!g_crumb) return;
    g_crumb->n = 0;
    g_crumb->caseNo = c;
    g_crumb->active = 1;
}
static void crumbDone() { if (g_crumb) g_crumb->active = 0; }

static std::map<std::string, Property> &props() { static std::map<std::string, Property> p; return p; }
void registerProperty(const Property &p) { props()[p.name] = p; }

std::string hex(const std::string &s) {
    static const char *d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
std::string unhex(const std::string &s) {
    std::string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2) r += char(std::stoi(s.substr(i, 2), nullptr, 16));
    return r;
}

static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}

static void onAlarm(int) {
    static const char m[] = "\nPBT-HANG: case did not finish within its time limit\n";
    ssize_t r = write(2, m, sizeof m - 1);
    (void)r;
    _exit(5);
}

static int runOne(Property &p, Ctx &ctx, std::string &msg) {
    try {
        p.run(ctx);
        return 0;
    } catch (const Fail &f) {
        msg = f.msg;
        return 3;
    } catch (const Discard &) {
        return 1;
    } catch (const std::exception &e) {
        msg = std::string("unexpected exception escaped to the user: ") + e.what();
        return 3;
    }
}

// in-process shrinking of an ordinary (non-crashing) failure
static void shrink(Property &p, std::vector<uint64_t> &best, std::string &msg, std::string &descr, double budget,
                   std::map<std::string, uint64_t> &labels) {
    auto t0 = std::chrono::steady_clock::now();
    auto over = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget; };
    auto attempt = [&](const std::vector<uint64_t> &c) {
        Src src(c);
        crumbReset(0);
        Ctx ctx{src};
        ctx.labels = &labels;
        std::string m;
        alarm(p.caseTimeoutSec);
        int r = runOne(p, ctx, m);
        alarm(0);
        crumbDone();
        if (r != 3) return false;
        std::vector<uint64_t> rec = src.recorded();
        while (!rec.empty() && rec.back() == 0) rec.pop_back();
        if (rec.size() > best.size() || (rec.size() == best.size() && !(rec < best))) return false;
        best = rec;
        msg = m;
        descr = ctx.describe;
        return true;
    };
    bool progress = true;
    while (progress && !over()) {
        progress = false;
        for (size_t len = best.size(); len >= 1 && !over(); len = len > 8 ? len / 2 : len - 1)
            for (size_t i = 0; i + len <= best.size() && !over();) {
                std::vector<uint64_t> c(best);
                c.erase(c.begin() + long(i), c.begin() + long(i + len));
                if (attempt(c)) progress = true;
                else i += std::max<size_t>(1, len / 2);
            }
        for (size_t i = 0; i < best.size() && !over(); ++i) {
            if (!best[i]) continue;
            uint64_t lo = 0, hi = best[i];
            while (lo < hi && i < best.size() && !over()) {
                uint64_t mid = lo + (hi - lo) / 2;
                std::vector<uint64_t> c(best);
                c[i] = mid;
                if (attempt(c)) { progress = true; hi = i < best.size() ? best[i] : 0; if (hi > mid) hi = mid; }
                else lo = mid + 1;
            }
        }
    }
}

int pbtMain(int argc, char **argv) {
    std::string prop, replay, crumb, out;
    uint64_t seed = 1, cases = 1000, first = 0, minCases = 0;
    double seconds = 1e9, shrinkSec = 0;
    int repeat = 1;
    bool verbose = false, known = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nxt = [&] { return std::string(argv[++i]); };
        if (a == "--prop") prop = nxt();
        else if (a == "--seed") seed = std::stoull(nxt());
        else if (a == "--cases") cases = std::stoull(nxt());
        else if (a == "--first") first = std::stoull(nxt());
        else if (a == "--min") minCases = std::stoull(nxt());
        else if (a == "--seconds") seconds = std::stod(nxt());
        else if (a == "--replay") replay = nxt();
        else if (a == "--crumb") crumb = nxt();
        else if (a == "--out") out = nxt();
        else if (a == "--shrink") shrinkSec = std::stod(nxt());
        else if (a == "--repeat") repeat = std::stoi(nxt());
        else if (a == "--known") known = true;
        else if (a == "-v") verbose = true;
    }
    auto it = props().find(prop);
    if (it == props().end()) { fprintf(stderr, "no such property %s\n", prop.c_str()); return 2; }
    Property &p = it->second;
    if (!crumb.empty()) {
        int fd = open(crumb.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, sizeof(CrumbMap)) == 0) {
            void *m = mmap(nullptr, sizeof(CrumbMap), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) g_crumb = static_cast<CrumbMap *>(m);
        }
    }
    signal(SIGALRM, onAlarm);
    if (p.init) p.init();
    std::map<std::string, uint64_t> labels;

    if (known) {
        for (auto &k : p.known) {
            std::string what;
            alarm(p.caseTimeoutSec);
            try { what = k.probe(); } catch (const Fail &f) { what = f.msg; } catch (const std::exception &e) { what = e.what(); }
            alarm(0);
            printf("KNOWN %s %s\n", k.id.c_str(), what.empty() ? "gone" : ("fails " + what).c_str());
        }
        fflush(stdout);
        _exit(0);
    }
    if (!replay.empty()) {
        std::ifstream f(replay);
        std::vector<uint64_t> c;
        uint64_t x;
        while (f >> x) c.push_back(x);
        std::string msg, descr;
        std::vector<uint64_t> rec;
        int r = 0;
        for (int k = 0; k < repeat && r != 3; ++k) {
            Src src(c);
            crumbReset(0);
            Ctx ctx{src};
            ctx.labels = &labels;
            ctx.verbose = verbose;
            alarm(p.caseTimeoutSec);
            r = runOne(p, ctx, msg);
            alarm(0);
            crumbDone();
            descr = ctx.describe;
            rec = src.recorded();
        }
        if (verbose) printf("CASE %s\n", descr.c_str());
        if (r == 3) { printf("PBT-FAIL: %s\n", msg.c_str()); fflush(stdout); }
        if (!out.empty()) {
            std::ofstream o(out);
            for (auto v : rec) o << v << " ";
        }
        fflush(stdout);
        _exit(r == 3 ? 3 : 0);
    }

    auto t0 = std::chrono::steady_clock::now();
    uint64_t n = 0, nontriv = 0, disc = 0, evals = 0;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    int rc = 0;
    std::string failMsg, failCase;
    std::vector<uint64_t> failChoices;
    for (uint64_t k = 0; k < cases; ++k) {
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (el > seconds && k >= minCases) break;
        Src src(seed, first + k);
        crumbReset(first + k);
        Ctx ctx{src};
        ctx.labels = &labels;
        std::string msg;
        alarm(p.caseTimeoutSec);
        int r = runOne(p, ctx, msg);
        alarm(0);
        crumbDone();
        ++n;
        if (r == 1) { ++disc; continue; }
        evals += ctx.evals ? ctx.evals : 1;
        if (r == 3) {
            rc = 3;
            failMsg = msg;
            failCase = ctx.describe;
            failChoices = src.recorded();
            break;
        }
        if (ctx.nontrivial) {
            ++nontriv;
            uint64_t h = ctx.hash;
            if (!h) { for (auto v : src.recorded()) h = h * 1099511628211ull + v + 1; }
            if (distinct.insert(h).second && samples.size() < 3 && !ctx.describe.empty())
                samples.push_back(ctx.describe.substr(0, 600));
        }
    }
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (rc == 3 && shrinkSec > 0) shrink(p, failChoices, failMsg, failCase, shrinkSec, labels);
    std::ostringstream js;
    js << "{\"cases\":" << n << ",\"discarded\":" << disc << ",\"evaluations\":" << evals << ",\"nontrivial\":" << nontriv
       << ",\"distinct\":" << distinct.size() << ",\"wall\":" << el << ",\"rule\":" << jstr(p.rule) << ",\"labels\":{";
    bool firstL = true;
    for (auto &l : labels) { js << (firstL ? "" : ",") << jstr(l.first) << ":" << l.second; firstL = false; }
    js << "},\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) js << (i ? "," : "") << jstr(samples[i]);
    js << "],\"rc\":" << rc;
    if (rc) {
        js << ",\"message\":" << jstr(failMsg) << ",\"case\":" << jstr(failCase.substr(0, 4000)) << ",\"choices\":[";
        for (size_t i = 0; i < failChoices.size(); ++i) js << (i ? "," : "") << failChoices[i];
        js << "]";
    }
    js << "}";
    if (!out.empty()) { std::ofstream o(out); o << js.str(); }
    else printf("%s\n", js.str().c_str());
    fflush(stdout);
    if (p.fini) p.fini();
    _exit(rc);
}
}

static std::atomic<unsigned> g_every{0}, g_kind{0};
static std::atomic<uint64_t> g_seed{1};
namespace pbt {
void setPerturb(const Perturb &p) {
    g_kind = p.kind;
    g_seed = p.seed;
    g_every = p.every;
}
}
extern "C" __attribute__((no_sanitize("address", "undefined"))) void __sanitizer_cov_trace_pc() {
    unsigned every = g_every.load(std::memory_order_relaxed);
    if (__builtin_expect(!every, 1)) return;
    static thread_local uint64_t x = 0;
    if (!x) x = (g_seed.fetch_add(0x9e3779b97f4a7c15ull) | 1);
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    if (x % every) return;
    switch (g_kind.load(std::memory_order_relaxed)) {
    case 0: sched_yield(); break;
    case 1: for (volatile int i = 0; i < 300; ++i) {} break;
    default: {
        timespec t{0, 1000};
        nanosleep(&t, nullptr);      // sleeps for the timer slack, about 50 us
    }
    }
}
