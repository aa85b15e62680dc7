#include "pbt.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

std::vector<Law>& laws()
{
    static std::vector<Law> l;
    return l;
}

uint64_t hash_str(std::string const& s, uint64_t h)
{
    for (unsigned char ch : s) {
        h ^= ch;
        h *= 1099511628211ULL;
    }
    return h;
}

static std::string vfmt(const char* f, va_list ap)
{
    char buf[4096];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
std::string strf(const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    return s;
}

uint64_t Ctx::draw(uint64_t n)
{
    uint64_t v;
    if (replaying) {
        v = pos < in->size() ? (*in)[pos] : 0;
        if (v > n)
            v = n;
    } else {
        uint64_t r = rng.next();
        v = n == UINT64_MAX ? r : uint64_t((__uint128_t(r) * (__uint128_t(n) + 1)) >> 64);
    }
    ++pos;
    if (rec && *nrec < cap) {
        rec[*nrec] = v;
        *nrec = *nrec + 1;
    }
    if (pos > 4000000)
        throw Discard();
    return v;
}
double Ctx::unit() { return double(draw((1ULL << 53) - 1)) * (1. / 9007199254740992.); }
double Ctx::u(double lo, double hi)
{
    switch (draw(11)) {
    case 0:
    case 1:
        return lo + (hi - lo) * double(draw(16)) / 16.;
    case 2:
        return lo + (hi - lo) * std::pow(10., -double(1 + draw(13)));
    case 3:
        return hi - (hi - lo) * std::pow(10., -double(1 + draw(13)));
    default:
        return lo + (hi - lo) * unit();
    }
}
double Ctx::logu(double lo, double hi)
{
    double x = std::exp(u(std::log(lo), std::log(hi)));
    return x < lo ? lo : x > hi ? hi : x;
}
double Ctx::prob()
{
    switch (draw(11)) {
    case 0:
        return 0.5;
    case 1:
        return double(1 + draw(14)) / 16.;
    case 2:
        return std::pow(10., -double(1 + draw(13))) * (0.1 + 0.9 * unit());
    case 3:
        return 1. - std::pow(10., -double(1 + draw(13))) * (0.1 + 0.9 * unit());
    default: {
        double r = unit();
        return r > 0 ? r : 0x1p-53;
    }
    }
}

static char* live_notes = nullptr; // readable by the parent after a crash
static const size_t LIVE = 4096;
void Ctx::note(const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    key = hash_str(s, key);
    if (notes.size() < 3000) {
        if (!notes.empty())
            notes += "; ";
        notes += s;
        if (live_notes) {
            strncpy(live_notes, notes.c_str(), LIVE - 1);
            live_notes[LIVE - 1] = 0;
        }
    }
}
void Ctx::fail(const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    throw Failure { s };
}
void Ctx::check(bool ok, const char* f, ...)
{
    if (ok)
        return;
    va_list ap;
    va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    throw Failure { s };
}
void Ctx::close(double a, double b, double rtol, double atol, const char* f, ...)
{
    if (a == b)
        return;
    double d = std::abs(a - b);
    double t = std::max(atol, rtol * std::max(std::abs(a), std::abs(b)));
    if (std::isfinite(a) && std::isfinite(b) && d <= t)
        return;
    va_list ap;
    va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    throw Failure { s + strf(": got %.17g, expected %.17g (difference %.3g, tolerance %.3g)", a, b, d, t) };
}

static std::set<std::string> listed_findings;
void Ctx::finding(std::string const& id, std::string const& what)
{
    if (listed_findings.count(id))
        throw KnownFinding { id, what };
    throw Failure { what + " [" + id + ", not listed]" };
}

// ------------------------------------------------------------------------
namespace {
    const size_t CAP = 1 << 17;
    const size_t OUT = 1 << 20;
    struct Shared {
        volatile uint64_t cur;
        volatile uint64_t nrec;
        uint64_t rec[CAP];
        volatile uint64_t evals, discards, interesting;
        volatile uint64_t nkeys;
        uint64_t keys[1 << 16];
        volatile uint64_t failed;
        volatile uint64_t outlen;
        char live[LIVE];
        char out[OUT]; // records: one line each
    };
    Shared* new_shared()
    {
        void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
            MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) {
            perror("mmap");
            exit(2);
        }
        return (Shared*)p;
    }
    void put(Shared* s, std::string l)
    {
        for (auto& ch : l)
            if (ch == '\n')
                ch = ' ';
        l += '\n';
        if (s->outlen + l.size() < OUT) {
            memcpy(s->out + s->outlen, l.data(), l.size());
            s->outlen = s->outlen + l.size();
        }
    }

    int cpu_limit = 60;
    void on_prof(int) { _exit(77); }
    void arm(int sec)
    {
        itimerval t {};
        t.it_value.tv_sec = sec;
        setitimer(ITIMER_PROF, &t, nullptr);
    }
    void child_setup()
    {
        if (!getenv("PBT_VERBOSE")) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 1);
            if (!getenv("PBT_STDERR"))
                dup2(fd, 2);
        }
        rlimit rl { 0, 0 };
        setrlimit(RLIMIT_CORE, &rl);
        signal(SIGPROF, on_prof);
        global_setup();
    }

    // runs one case; returns 0 ok, 1 failed, 2 discarded, 3 known finding
    int run_case(Law const& l, Ctx& c, std::string& msg)
    {
        try {
            l.fn(c);
            return 0;
        } catch (Discard const&) {
            return 2;
        } catch (KnownFinding const& k) {
            msg = k.id + " " + k.what;
            return 3;
        } catch (Failure const& f) {
            msg = f.msg;
            return 1;
        } catch (std::exception const& e) {
            msg = std::string("unexpected exception: ") + e.what();
            return 1;
        } catch (...) {
            msg = "unexpected exception of unknown type";
            return 1;
        }
    }

    uint64_t case_seed(uint64_t seed, Law const& l, uint64_t idx)
    {
        Rng r { hash_str(std::string(property_id) + "/" + l.name) ^ (seed * 0xD1342543DE82EF95ULL) };
        r.next();
        Rng q { r.next() + idx * 0x9E3779B97F4A7C15ULL };
        q.next();
        return q.next();
    }

    void chunk_child(Law const& l, uint64_t seed, uint64_t a, uint64_t b,
        Shared* s, bool stop_after_fail = true)
    {
        child_setup();
        size_t samples = 0;
        std::map<std::string, uint64_t> labels;
        std::set<std::string> known;
        for (uint64_t i = a; i < b; ++i) {
            s->cur = i;
            s->nrec = 0;
            Ctx c;
            c.rng.s = case_seed(seed, l, i);
            c.rec = s->rec;
            c.nrec = &s->nrec;
            c.cap = CAP;
            std::string msg;
            if ((i - a) % std::max<size_t>(1, l.chunk / 50) == 0)
                arm(cpu_limit);
            int r = run_case(l, c, msg);
            s->evals = s->evals + 1;
            if (r == 2)
                s->discards = s->discards + 1;
            for (auto& x : c.labels)
                labels[x]++;
            if (r == 3 && known.insert(msg).second)
                put(s, "K " + msg);
            if ((r == 0 || r == 1 || r == 3) && c.interesting) {
                s->interesting = s->interesting + 1;
                if (s->nkeys < (1 << 16)) {
                    s->keys[s->nkeys] = c.key;
                    s->nkeys = s->nkeys + 1;
                }
                if (samples < 2) {
                    put(s, "S " + c.notes);
                    ++samples;
                }
            }
            if (r == 1) {
                put(s, strf("F %llu ", (unsigned long long)i) + msg);
                s->failed = 1;
                if (stop_after_fail)
                    break;
            }
        }
        for (auto& x : labels)
            put(s, strf("L %llu ", (unsigned long long)x.second) + x.first);
        _exit(0);
    }

    struct Outcome {
        int code = 0; // 0 ok, 1 failure, 2 discard, 3 known
        std::string msg, notes;
        std::vector<uint64_t> used;
        bool crash = false;
    };
    // one case from a choice sequence in a fresh process
    Outcome replay_case(Law const& l, std::vector<uint64_t> const& ch, Shared* s)
    {
        memset((void*)s, 0, offsetof(Shared, rec));
        s->outlen = 0;
        s->failed = 0;
        s->live[0] = 0;
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            child_setup();
            live_notes = s->live;
            Ctx c;
            c.replaying = true;
            c.in = &ch;
            c.rec = s->rec;
            c.nrec = &s->nrec;
            c.cap = CAP;
            std::string msg;
            arm(cpu_limit);
            int r = run_case(l, c, msg);
            put(s, strf("R %d ", r) + msg);
            put(s, "N " + c.notes);
            _exit(0);
        }
        int st;
        waitpid(p, &st, 0);
        Outcome o;
        o.used.assign(s->rec, s->rec + s->nrec);
        o.notes = s->live;
        if (WIFSIGNALED(st)) {
            o.code = 1;
            o.crash = true;
            o.msg = strf("process died with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
            return o;
        }
        if (WEXITSTATUS(st) == 77) {
            o.code = 1;
            o.crash = true;
            o.msg = strf("no answer within %d s of CPU time", cpu_limit);
            return o;
        }
        if (WEXITSTATUS(st) != 0 || s->outlen == 0) {
            o.code = 1;
            o.crash = true;
            o.msg = strf("process exited with status %d (sanitizer report or exit call)", WEXITSTATUS(st));
            return o;
        }
        std::istringstream is(std::string(s->out, s->outlen));
        std::string line;
        while (std::getline(is, line)) {
            if (line.rfind("R ", 0) == 0) {
                o.code = line[2] - '0';
                o.msg = line.substr(4);
            } else if (line.rfind("N ", 0) == 0)
                o.notes = line.substr(2);
        }
        return o;
    }

    double now()
    {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + 1e-9 * t.tv_nsec;
    }

    std::vector<uint64_t> shrink(Law const& l, std::vector<uint64_t> best,
        Outcome& out, Shared* s, double budget)
    {
        double t0 = now();
        auto better = [&](std::vector<uint64_t> const& cand) {
            if (now() - t0 > budget)
                return false;
            auto o = replay_case(l, cand, s);
            if (o.code != 1 || o.msg.rfind("no answer", 0) == 0)
                return false;
            auto u = o.used;
            if (u.size() > best.size() || (u.size() == best.size() && !(u < best)))
                return false;
            best = u;
            out = o;
            return true;
        };
        bool progress = true;
        while (progress && now() - t0 < budget) {
            progress = false;
            // delete blocks
            for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1; k /= 2) {
                for (size_t p = 0; p + k <= best.size();) {
                    auto c = best;
                    c.erase(c.begin() + p, c.begin() + p + k);
                    if (better(c))
                        progress = true;
                    else
                        p += k;
                    if (now() - t0 > budget)
                        return best;
                }
                if (k == 1)
                    break;
            }
            // zero / lower single values
            for (size_t p = 0; p < best.size(); ++p) {
                if (best[p] == 0)
                    continue;
                auto c = best;
                c[p] = 0;
                if (better(c)) {
                    progress = true;
                    continue;
                }
                uint64_t lo = 0, hi = p < best.size() ? best[p] : 0;
                for (int it = 0; it < 24 && p < best.size() && hi > lo + 1; ++it) {
                    uint64_t mid = lo + (hi - lo) / 2;
                    c = best;
                    c[p] = mid;
                    if (better(c)) {
                        progress = true;
                        hi = p < best.size() ? best[p] : 0;
                    } else
                        lo = mid;
                    if (now() - t0 > budget)
                        return best;
                }
            }
        }
        return best;
    }

    std::string jstr(std::string const& s)
    {
        std::string r = "\"";
        for (unsigned char ch : s) {
            if (ch == '"' || ch == '\\') {
                r += '\\';
                r += char(ch);
            } else if (ch < 32 || ch > 126)
                r += strf("\\u%04x", ch);
            else
                r += char(ch);
        }
        return r + "\"";
    }

    struct LawStat {
        uint64_t evals = 0, discards = 0, interesting = 0;
        std::set<uint64_t> keys;
        std::vector<std::string> samples;
        std::map<std::string, uint64_t> labels;
        bool failed = false;
        uint64_t fail_case = 0, fail_start = 0, fail_end = 0;
        std::string fail_msg;
        std::vector<uint64_t> fail_choices;
        double cpu = 0;
    };
}

static int do_replay(std::string const& file)
{
    // line based: "law NAME", "mode case|chunk", "choices a b c", "seed s",
    // "range a b"
    std::ifstream f(file);
    std::string w, law, mode = "case";
    std::vector<uint64_t> ch;
    uint64_t seed = 0, a = 0, b = 0;
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        is >> w;
        if (w == "law")
            is >> law;
        else if (w == "mode")
            is >> mode;
        else if (w == "seed")
            is >> seed;
        else if (w == "range")
            is >> a >> b;
        else if (w == "choices") {
            uint64_t v;
            while (is >> v)
                ch.push_back(v);
        }
    }
    Shared* s = new_shared();
    for (auto& l : laws())
        if (l.name == law) {
            if (mode == "case") {
                auto o = replay_case(l, ch, s);
                printf("case: %s\nresult: %s %s\n", o.notes.c_str(),
                    o.code == 1 ? "FAIL" : o.code == 2 ? "discarded" : o.code == 3 ? "known finding" : "ok", o.msg.c_str());
                return o.code == 1 ? 1 : 0;
            }
            pid_t p = fork();
            if (p == 0)
                chunk_child(l, seed, a, b, s);
            int st;
            waitpid(p, &st, 0);
            bool bad = s->failed || !WIFEXITED(st) || WEXITSTATUS(st);
            printf("%.*s\nresult: %s\n", int(s->outlen), s->out, bad ? "FAIL" : "ok");
            return bad ? 1 : 0;
        }
    printf("unknown law %s\n", law.c_str());
    return 2;
}

} // namespace pbt

using namespace pbt;

int main(int argc, char** argv)
{
    std::string tier = "quick", json, replaydir = ".", only, replayfile;
    uint64_t seed = 1;
    int jobs = 8;
    double cap = 420, scale = 1;
    bool force_first = false;
    (void)force_first;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--tier")
            tier = val();
        else if (a == "--seed")
            seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--jobs")
            jobs = atoi(val().c_str());
        else if (a == "--json")
            json = val();
        else if (a == "--replaydir")
            replaydir = val();
        else if (a == "--cap")
            cap = atof(val().c_str());
        else if (a == "--scale")
            scale = atof(val().c_str());
        else if (a == "--only")
            only = val();
        else if (a == "--known") {
            std::istringstream is(val());
            std::string k;
            while (std::getline(is, k, ','))
                listed_findings.insert(k);
        } else if (a == "--replay")
            replayfile = val();
        else if (a == "--list") {
            for (auto& l : laws())
                printf("%s %zu %zu\n", l.name.c_str(), l.quick, l.chunk);
            return 0;
        }
    }
    if (!replayfile.empty())
        return do_replay(replayfile);

    double t0 = now();
    struct Task {
        size_t law;
        uint64_t a, b;
    };
    std::vector<std::vector<Task>> per(laws().size());
    for (size_t k = 0; k < laws().size(); ++k) {
        auto& l = laws()[k];
        if (!only.empty() && l.name != only)
            continue;
        uint64_t n = uint64_t(std::ceil(l.quick * (tier == "thorough" ? l.factor : 1) * scale));
        for (uint64_t a = 0; a < n; a += l.chunk)
            per[k].push_back({ k, a, std::min<uint64_t>(n, a + l.chunk) });
    }
    std::vector<Task> tasks; // proportional interleaving of the laws
    {
        std::vector<std::pair<double, Task>> v;
        for (auto& p : per)
            for (size_t i = 0; i < p.size(); ++i)
                v.push_back({ (i + 0.5) / p.size(), p[i] });
        std::stable_sort(v.begin(), v.end(), [](auto const& x, auto const& y) { return x.first < y.first; });
        for (auto& x : v)
            tasks.push_back(x.second);
    }
    std::vector<LawStat> st(laws().size());
    std::map<std::string, std::string> known; // line -> law
    struct Slot {
        pid_t pid = 0;
        Task t;
        Shared* s = nullptr;
    };
    std::vector<Slot> slots(jobs);
    for (auto& s : slots)
        s.s = new_shared();
    size_t next = 0, running = 0;
    bool truncated = false;
    auto collect = [&](Slot& sl, int status, rusage const& ru) {
        auto& l = st[sl.t.law];
        Shared* s = sl.s;
        l.evals += s->evals;
        l.discards += s->discards;
        l.interesting += s->interesting;
        l.cpu += ru.ru_utime.tv_sec + 1e-6 * ru.ru_utime.tv_usec;
        for (size_t i = 0; i < s->nkeys; ++i)
            l.keys.insert(s->keys[i]);
        std::istringstream is(std::string(s->out, s->outlen));
        std::string line;
        bool failed = false;
        uint64_t fc = 0;
        std::string fm;
        while (std::getline(is, line)) {
            if (line[0] == 'S') {
                if (l.samples.size() < 4)
                    l.samples.push_back(line.substr(2));
            } else if (line[0] == 'L') {
                char* e;
                uint64_t n = strtoull(line.c_str() + 2, &e, 10);
                l.labels[e + 1] += n;
            } else if (line[0] == 'K')
                known[line.substr(2)] = laws()[sl.t.law].name;
            else if (line[0] == 'F') {
                char* e;
                fc = strtoull(line.c_str() + 2, &e, 10);
                fm = e + 1;
                failed = true;
            }
        }
        if (!failed && !(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
            failed = true;
            fc = s->cur;
            fm = "process died or hung";
        }
        if (failed && (!l.failed || fc < l.fail_case)) {
            l.failed = true;
            l.fail_case = fc;
            l.fail_start = sl.t.a;
            l.fail_end = fc + 1;
            l.fail_msg = fm;
            l.fail_choices.assign(s->rec, s->rec + s->nrec);
        }
    };
    while (next < tasks.size() || running) {
        bool started = false;
        if (now() - t0 > cap && next < tasks.size()) {
            truncated = true;
            next = tasks.size();
        }
        for (auto& sl : slots) {
            if (sl.pid || next >= tasks.size())
                continue;
            while (next < tasks.size() && st[tasks[next].law].failed)
                ++next;
            if (next >= tasks.size())
                break;
            sl.t = tasks[next++];
            Shared* s = sl.s;
            s->evals = s->discards = s->interesting = s->nkeys = s->failed = s->outlen = s->nrec = 0;
            s->cur = sl.t.a;
            fflush(nullptr);
            sl.pid = fork();
            if (sl.pid == 0)
                chunk_child(laws()[sl.t.law], seed, sl.t.a, sl.t.b, s);
            ++running;
            started = true;
        }
        (void)started;
        if (running) {
            int status;
            rusage ru;
            pid_t p = wait4(-1, &status, 0, &ru);
            for (auto& sl : slots)
                if (sl.pid == p && p > 0) {
                    collect(sl, status, ru);
                    sl.pid = 0;
                    --running;
                }
        }
    }

    // ---- failures: confirm, shrink, confirm three times ------------------
    bool violated = false;
    std::vector<std::string> vio;
    size_t unconfirmed = 0, nfail = 0;
    for (auto& l : st)
        nfail += l.failed;
    double shrink_budget = nfail ? std::max(5., 60. / nfail) : 0;
    Shared* s = slots[0].s;
    for (size_t k = 0; k < st.size(); ++k) {
        auto& l = st[k];
        if (!l.failed)
            continue;
        auto& law = laws()[k];
        auto o = replay_case(law, l.fail_choices, s);
        std::string path = replaydir + "/" + property_id + "_" + law.name + ".replay";
        bool confirmed = false;
        if (o.code == 1) {
            bool hang = o.msg.rfind("no answer", 0) == 0;
            cpu_limit = 10;
            auto best = hang ? l.fail_choices : shrink(law, o.used, o, s, shrink_budget);
            cpu_limit = 60;
            auto first = replay_case(law, best, s);
            confirmed = first.code == 1;
            for (int r = 0; r < (hang ? 1 : 2) && confirmed; ++r)
                confirmed = replay_case(law, best, s).code == 1;
            if (confirmed) {
                std::ofstream f(path);
                f << "property " << property_id << "\nlaw " << law.name << "\nmode case\nseed " << seed
                  << "\nchoices";
                for (auto v : best)
                    f << ' ' << v;
                f << "\ncase " << first.notes << "\nmessage " << first.msg << "\n";
                printf("law %s fails: %s\n  case: %s\n", law.name.c_str(), first.msg.c_str(), first.notes.c_str());
            }
        }
        if (!confirmed) { // depends on the history of the process
            bool all = true;
            for (int r = 0; r < 3 && all; ++r) {
                s->evals = s->discards = s->interesting = s->nkeys = s->failed = s->outlen = s->nrec = 0;
                fflush(nullptr);
                pid_t p = fork();
                if (p == 0)
                    chunk_child(law, seed, l.fail_start, l.fail_end, s);
                int status;
                waitpid(p, &status, 0);
                all = s->failed || !WIFEXITED(status) || WEXITSTATUS(status);
            }
            if (all) {
                confirmed = true;
                std::ofstream f(path);
                f << "property " << property_id << "\nlaw " << law.name << "\nmode chunk\nseed " << seed
                  << "\nrange " << l.fail_start << ' ' << l.fail_end << "\nmessage " << l.fail_msg << "\n";
                printf("law %s fails (only after the preceding cases of its process): %s\n", law.name.c_str(), l.fail_msg.c_str());
            }
        }
        if (confirmed) {
            violated = true;
            vio.push_back(strf("VIOLATION property=%s replay=%s", property_id, path.c_str()));
        } else {
            ++unconfirmed;
            printf("law %s: a failure was seen once and did not reproduce: %s\n", law.name.c_str(), l.fail_msg.c_str());
        }
    }
    for (auto& x : known)
        printf("KNOWN-FINDING: property=%s %s\n", property_id, x.first.c_str());

    uint64_t ev = 0, nt = 0, disc = 0;
    std::string sj, lj, rule;
    for (size_t k = 0; k < st.size(); ++k) {
        auto& l = st[k];
        ev += l.evals;
        nt += l.keys.size();
        disc += l.discards;
        size_t cnt = 0;
        for (auto& x : l.samples) {
            if (cnt++ >= 2)
                break;
            if (!sj.empty())
                sj += ",\n   ";
            sj += jstr(laws()[k].name + ": " + x);
        }
        if (!lj.empty())
            lj += ",\n   ";
        lj += jstr(laws()[k].name) + strf(": {\"evaluations\": %llu, \"discarded\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %zu, \"cpu_s\": %.2f, \"labels\": {",
                                         (unsigned long long)l.evals, (unsigned long long)l.discards,
                                         (unsigned long long)l.interesting, l.keys.size(), l.cpu);
        bool first = true;
        for (auto& x : l.labels) {
            lj += (first ? "" : ", ") + jstr(x.first) + strf(": %llu", (unsigned long long)x.second);
            first = false;
        }
        lj += "}}";
        rule += laws()[k].name + ": " + laws()[k].rule + ". ";
        if (getenv("PBT_STATS"))
            printf("%-34s evals %8llu disc %7llu distinct %8zu cpu %7.2f\n", laws()[k].name.c_str(),
                (unsigned long long)l.evals, (unsigned long long)l.discards, l.keys.size(), l.cpu);
    }
    if (!json.empty()) {
        std::ofstream f(json);
        f << "{\"property\": " << jstr(property_id) << ", \"tier\": " << jstr(tier) << ", \"seed\": " << seed
          << ", \"level\": \"exploration\",\n \"coverage\": {\"evaluations\": " << ev
          << ", \"distinct_nontrivial\": " << nt << ", \"discarded\": " << disc
          << ", \"truncated_by_time\": " << (truncated ? "true" : "false")
          << ", \"unreproducible_failures\": " << unconfirmed
          << ",\n  \"rule\": " << jstr("Cases are generated from a seeded choice sequence per law; a case counts as non-trivial by the law's own rule and as distinct by the hash of its recorded parameters. " + rule)
          << ",\n  \"laws\": {" << lj << "},\n  \"samples\": [" << sj << "]},\n \"wall_s\": " << now() - t0
          << ", \"violations\": " << vio.size() << "}\n";
    }
    printf("%s %s seed %llu: %llu cases, %llu distinct non-trivial, %llu discarded, %.1f s%s\n", property_id,
        tier.c_str(), (unsigned long long)seed, (unsigned long long)ev, (unsigned long long)nt,
        (unsigned long long)disc, now() - t0, truncated ? " (truncated by the time cap)" : "");
    for (auto& v : vio)
        printf("%s\n", v.c_str());
    return violated ? 1 : 0;
}
