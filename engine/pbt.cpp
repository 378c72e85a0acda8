#include "pbt.h"
#include <algorithm>
#include <atomic>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <fstream>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char* __asan_default_options()
{ return "detect_leaks=0:exitcode=78:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=2048:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:handle_abort=1:symbolize=1:print_legend=0:detect_odr_violation=0:quarantine_size_mb=16:malloc_context_size=6"; }
extern "C" const char* __ubsan_default_options()
{ return "print_stacktrace=1:halt_on_error=1:exitcode=78"; }

namespace pbt {

static const unsigned MAX_LABELS = 64;

struct Shared
{
    std::atomic<uint64_t> done, trivial, nontrivial, truncated;
    std::atomic<uint64_t> cur_index;       // case being run
    std::atomic<uint32_t> running, finished, failed, hang;
    char msg[4096];
    uint32_t n;                            // choices of the current case
    uint64_t choice[MAX_CHOICES];
    char lname[MAX_LABELS][48];
    uint64_t lcount[MAX_LABELS];
    uint64_t nsamples;
    uint64_t sample[8];                    // indices of sampled non-trivial cases
};

static Shared* g_sh;                       // of this process

std::vector<Target>& targets() { static std::vector<Target> t; return t; }

static inline uint64_t splitmix(uint64_t& x)
{ uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

void Source::begin_random(uint64_t seed) { uint64_t x = seed; s0_ = splitmix(x); s1_ = splitmix(x); replay_ = false; pos_ = 0; overrun_ = false; nontrivial_ = false; hash_ = 1469598103934665603ull; }
void Source::begin_replay(const uint64_t* c, size_t n) { rep_ = c; rep_n_ = n; replay_ = true; pos_ = 0; overrun_ = false; nontrivial_ = false; hash_ = 1469598103934665603ull; }
uint64_t Source::next()
{ uint64_t a = s0_, b = s1_; s0_ = b; a ^= a << 23; s1_ = a ^ b ^ (a >> 18) ^ (b >> 5); return s1_ + b; }

uint64_t Source::choose(uint64_t n)
{
    uint64_t v;
    if (pos_ >= MAX_CHOICES) { overrun_ = true; return 0; }
    if (replay_) { if (pos_ < rep_n_) v = rep_[pos_]; else { overrun_ = true; v = 0; } if (n && v >= n) v = n - 1; }
    else v = n ? (uint64_t)(((unsigned __int128)next() * n) >> 64) : next();
    if (sh) { sh->choice[pos_] = v; sh->n = (uint32_t)pos_ + 1; }
    pos_++;
    hash_ = (hash_ ^ (v + 0x9e37)) * 1099511628211ull; hash_ ^= hash_ >> 29;
    return v;
}
unsigned Source::size(unsigned max)
{
    if (!max) return 0;
    if (one_in(4)) return (unsigned)choose(max + 1);
    unsigned m = max < 6 ? max : 6;
    return (unsigned)choose(m + 1);
}
std::string Source::text(const char* alphabet, unsigned max)
{ unsigned n = size(max); size_t a = strlen(alphabet); std::string r; while (n--) r += alphabet[choose(a)]; return r; }

void Source::label(const char* l)
{
    if (!sh) return;
    for (unsigned i = 0; i < MAX_LABELS; i++)
    {
        if (!sh->lname[i][0]) { snprintf(sh->lname[i], sizeof sh->lname[i], "%s", l); sh->lcount[i] = 1; return; }
        if (!strncmp(sh->lname[i], l, sizeof sh->lname[i] - 1)) { sh->lcount[i]++; return; }
    }
}

#ifdef PBT_FUZZ
static char g_msg[4096];
void fail(const std::string& msg) { fprintf(stderr, "PBT-FAIL %s\n", msg.c_str()); (void)g_msg; __builtin_trap(); }
#else
void fail(const std::string& msg)
{
    if (g_sh) { snprintf(g_sh->msg, sizeof g_sh->msg, "%s", msg.c_str()); g_sh->failed = 1; _exit(77); }
    fprintf(stderr, "FAIL %s\n", msg.c_str()); _exit(77);
}
#endif

// ------------------------------------------------------------------ Life
static std::unordered_set<const void*>& lives() { static std::unordered_set<const void*> s; return s; }
static std::unordered_set<const void*> g_dead;
long Life::throw_after = -1;
void Life::reset() { lives().clear(); g_dead.clear(); throw_after = -1; }
void Life::tick() { if (throw_after >= 0) { if (throw_after == 0) { throw_after = -1; throw Injected(); } throw_after--; } }
void Life::born(const void* p, const char* w) { if (!lives().insert(p).second) fail(std::string("object constructed over a live object (") + w + ")"); }
void Life::died(const void* p, const char* w) { if (!lives().erase(p)) fail(std::string("destroying something that is not a live object (") + w + ")"); }
void Life::used(const void* p, const char* w) { if (!lives().count(p)) fail(std::string("use of something that is not a live object (") + w + ")"); }
bool Life::alive(const void* p) { return lives().count(p) != 0; }
long Life::live() { return (long)lives().size(); }
void Life::expect_live(long n, const char* where)
{ if (live() != n) fail(std::string(where) + ": " + std::to_string(live()) + " objects alive, expected " + std::to_string(n)); }

} // namespace pbt

using namespace pbt;

#ifdef PBT_FUZZ
// ------------------------------------------------------------------ libFuzzer front end
// byte 0 selects the target; the rest decodes to choices: one byte per choice for n<=256, otherwise
// the minimum number of bytes.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n)
{
    static std::vector<uint64_t> ch; ch.clear();
    if (n < 2) return 0;
    static std::vector<Target> ts;
    if (ts.empty()) for (auto& x : targets()) if (x.weight) ts.push_back(x);   // probes are not fuzzed
    const Target& t = ts[d[0] % ts.size()];
    for (size_t i = 1; i + 1 < n + 1 && ch.size() < MAX_CHOICES;)
    {   // varint-like: 0..239 direct, >=240: following (b-239) bytes (1..8) little endian, at most 8
        uint8_t b = d[i++];
        if (b < 240) ch.push_back(b);
        else { unsigned k = (b - 239 + 1) / 2; uint64_t v = 0; for (unsigned j = 0; j < k && i < n; j++) v |= (uint64_t)d[i++] << (8 * j); ch.push_back(v); }
    }
    Source s; s.begin_replay(ch.data(), ch.size());
    Life::reset();
    if (const char* dump = getenv("PBT_DUMP"))
    { FILE* f = fopen(dump, "w"); fprintf(f, "target %s\nchoices", t.name); for (auto c : ch) fprintf(f, " %llu", (unsigned long long)c); fprintf(f, "\n"); fclose(f); }
    t.fn(s);
    return 0;
}
#else

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static Shared* alloc_shared()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return new (p) Shared();
}

// hang watchdog: CPU time ticks within one case
static volatile uint64_t g_tick_case; static volatile unsigned g_ticks; static unsigned g_max_ticks = 25;
static void on_tick(int)
{
    uint64_t c = g_sh->done;
    if (c != g_tick_case) { g_tick_case = c; g_ticks = 0; return; }
    if (++g_ticks >= g_max_ticks) { snprintf(g_sh->msg, sizeof g_sh->msg, "case did not terminate within %u s of CPU time", g_max_ticks); g_sh->failed = 1; g_sh->hang = 1; _exit(79); }
}
static void arm() { signal(SIGPROF, on_tick); itimerval tv = {{1, 0}, {1, 0}}; setitimer(ITIMER_PROF, &tv, nullptr); }

struct Outcome { bool failed = false, hang = false, bad = false; std::string msg; std::vector<uint64_t> ch; std::string log; bool nontrivial = false; };

// read the sanitizer log: first ERROR/runtime error line and the first frame in the code under test
static std::string summarize_log(const std::string& path)
{
    std::ifstream f(path); std::string l, r; int frames = 0;
    while (std::getline(f, l))
    {
        if (l.find("ERROR: ") != std::string::npos || l.find("runtime error:") != std::string::npos || l.find("terminate called") != std::string::npos || l.find("what():") != std::string::npos || l.find("ssertion") != std::string::npos) { if (r.size() < 600) r += (r.empty() ? "" : " | ") + l; frames = 0; }
        else if (l.find("    #") == 0 && frames < 4 && r.size() < 1500) { r += " " + l.substr(3); frames++; }
    }
    return r;
}

// The code under test and sanitizers write to stderr/stdout of the child: redirect to a file.
static void redirect(const std::string& path)
{ int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); } }

static std::string g_tmp;

static Outcome classify(int st, Shared* sh, const std::string& log)
{
    Outcome o;
    o.ch.assign(sh->choice, sh->choice + sh->n);
    o.nontrivial = sh->nontrivial > 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    o.failed = true;
    if (sh->failed) { o.msg = sh->msg; o.hang = sh->hang; if (o.hang) return o; return o; }
    std::string s = summarize_log(log);
    if (WIFSIGNALED(st)) { int sg = WTERMSIG(st); o.msg = std::string("killed by signal ") + std::to_string(sg) + " (" + strsignal(sg) + ") " + s; if (sg == SIGKILL) o.bad = true; }
    else o.msg = "exit " + std::to_string(WEXITSTATUS(st)) + " " + s;
    return o;
}

static Outcome run_one(const Target& t, const std::vector<uint64_t>& ch, bool verbose, unsigned max_ticks = 25)
{
    static Shared* sh = alloc_shared();
    memset((void*)sh, 0, sizeof *sh);
    std::string log = g_tmp + "/one.log", desc = g_tmp + "/one.desc";
    unlink(desc.c_str());
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0)
    {
        g_sh = sh; g_max_ticks = max_ticks; redirect(log); arm();
        Source s; s.sh = sh; s.verbose_ = verbose; s.begin_replay(ch.data(), ch.size());
        if (verbose)
        {   // unbuffered description, so that it survives a crash
            struct Tee : std::stringbuf { int fd; int overflow(int c) override { char b = (char)c; if (write(fd, &b, 1)) {} return c; } std::streamsize xsputn(const char* d, std::streamsize n) override { if (write(fd, d, (size_t)n)) {} return n; } };
            Tee* t2 = new Tee; t2->fd = open(desc.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            static_cast<std::basic_ios<char>&>(s.log_).rdbuf(t2);
        }
        Life::reset();
        try { t.fn(s); }
        catch (const Injected&) { fail("injected exception escaped the case"); }
        catch (const std::exception& e) { fail(std::string("unexpected exception: ") + e.what()); }
        catch (...) { fail("unexpected exception of unknown type"); }
        sh->done = 1; sh->nontrivial = s.nontrivial_;
        _exit(0);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    Outcome o = classify(st, sh, log);
    if (verbose) { std::ifstream f(desc); std::ostringstream b; b << f.rdbuf(); o.log = b.str(); if (o.log.size() > 20000) o.log.resize(20000); }
    return o;
}

static std::vector<uint64_t> shrink(const Target& t, Outcome& best, double budget)
{
    double t0 = now(); std::vector<uint64_t> cur = best.ch; unsigned tries = 0;
    if (best.hang) return cur;
    auto attempt = [&](const std::vector<uint64_t>& c) -> bool {
        if (now() - t0 > budget || tries > 6000) return false;
        tries++;
        Outcome o = run_one(t, c, false, 5);
        if (!o.failed || o.hang || o.bad) return false;
        // the case may have consumed fewer choices than supplied; never grow
        if (o.ch.size() > c.size() && o.ch.size() > cur.size()) return false;
        std::vector<uint64_t> n = o.ch.size() <= c.size() ? o.ch : c;
        if (n.size() > cur.size() || (n.size() == cur.size() && !(n < cur))) return false;
        cur = n; best.msg = o.msg; return true; };
    bool progress = true;
    while (progress && now() - t0 < budget)
    {
        progress = false;
        while (!cur.empty() && cur.back() == 0) cur.pop_back();     // trailing zeros are implied
        for (size_t len = cur.size() / 2 ? cur.size() / 2 : 1; len >= 1; len /= 2)
        {
            for (size_t i = cur.size() >= len ? cur.size() - len : 0; ; )
            {
                if (i + len <= cur.size())
                { std::vector<uint64_t> c(cur); c.erase(c.begin() + i, c.begin() + i + len); if (attempt(c)) progress = true; }
                if (i == 0 || now() - t0 > budget) break;
                i -= std::min(i, len > 4 ? len : (size_t)1);
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < cur.size() && now() - t0 < budget; i++)
        {
            if (!cur[i]) continue;
            std::vector<uint64_t> c(cur); c[i] = 0; if (attempt(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = i < cur.size() ? cur[i] : 0; unsigned k = 0;
            while (i < cur.size() && lo + 1 < hi && k++ < 64) { uint64_t m = lo + (hi - lo) / 2; c = cur; c[i] = m; if (attempt(c)) { hi = m; progress = true; } else lo = m; }
        }
    }
    while (!cur.empty() && cur.back() == 0) cur.pop_back();
    return cur;
}

static std::string jstr(const std::string& v)
{
    std::string r = "\""; char b[8];
    for (unsigned char c : v) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; }
    return r + "\"";
}

// what is generated can hold any character, but the line reporting a violation must begin a line of readable text
static std::string plain(const std::string& v)
{
    std::string r; char b[8];
    for (unsigned char c : v) if (c == '\n' || (c >= 32 && c < 127)) r += (char)c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    while (!r.empty() && r.back() == '\n') r.pop_back();
    return r;
}

static bool load_replay(const char* path, std::string& target, std::vector<uint64_t>& ch)
{
    std::ifstream f(path); std::string l; bool ok = false;
    while (std::getline(f, l))
    {
        if (l.rfind("--- case", 0) == 0) break;
        if (l.rfind("target ", 0) == 0) { target = l.substr(7); ok = true; }
        else if (l.rfind("choices", 0) == 0) { std::istringstream is(l.substr(7)); unsigned long long v; while (is >> v) ch.push_back(v); }
    }
    return ok;
}

// usage: check --prop C01 --tier quick --seed 1 --cases N --evidence F --replay-dir D [--jobs 8] [--max-wall S]
//        check --replay FILE        re-run one saved case (exit 1 if it fails)
//        check --shrink FILE ...    shrink a saved failing case (used for fuzzer findings)
int main(int argc, char** argv)
{
    std::string known; std::string prop = "X00", tier = "quick", evidence, rdir = ".", replay, shrinkf, only, rule; uint64_t seed = 1, cases = 1000; unsigned jobs = 8; double maxwall = 600, extra_wall = 0; unsigned long long extra_evals = 0; std::string extra;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--prop") prop = v; else if (a == "--tier") tier = v; else if (a == "--seed") seed = strtoull(v.c_str(), 0, 0);
        else if (a == "--cases") cases = strtoull(v.c_str(), 0, 0); else if (a == "--evidence") evidence = v; else if (a == "--replay-dir") rdir = v;
        else if (a == "--jobs") jobs = atoi(v.c_str()); else if (a == "--max-wall") maxwall = atof(v.c_str()); else if (a == "--replay") replay = v;
        else if (a == "--shrink") shrinkf = v; else if (a == "--only") only = v; else if (a == "--rule") rule = v; else if (a == "--known") known = v;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    (void)extra_wall; (void)extra_evals; (void)extra;
    char tmpl[] = "/tmp/pbtXXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; } g_tmp = tmpl;
    struct Cleanup { ~Cleanup() { for (const char* n : {"one.log", "one.desc"}) unlink((g_tmp + "/" + n).c_str()); for (int i = 0; i < 64; i++) { unlink((g_tmp + "/w" + std::to_string(i) + ".log").c_str()); unlink((g_tmp + "/w" + std::to_string(i) + ".hash").c_str()); } rmdir(g_tmp.c_str()); } } cleanup;
    auto& ts = targets();
    std::sort(ts.begin(), ts.end(), [](const Target& a, const Target& b) { return strcmp(a.name, b.name) < 0; });
    if (!only.empty()) { std::vector<Target> k; for (auto& t : ts) if (only == t.name) k.push_back(t); ts = k; }
    double t0 = now();

    auto report = [&](const Target& t, Outcome o, bool do_shrink) -> int {
        // confirm: the same choices must fail again three times before anything is reported
        int again = 0; for (int k = 0; k < 3; k++) { Outcome r = run_one(t, o.ch, false); if (r.failed && !r.bad) again++; }
        if (again < 3) { fprintf(stderr, "target %s: failure did not reproduce (%d/3): %s\n", t.name, again, plain(o.msg).c_str()); return 0; }
        if (do_shrink) o.ch = shrink(t, o, 60);
        Outcome fin = run_one(t, o.ch, true);
        if (!fin.failed) { fprintf(stderr, "shrunk case does not fail\n"); }
        mkdir(rdir.c_str(), 0755);
        std::string path = t.name; for (char& c : path) if (c == '/') c = '.';
        path = rdir + "/" + prop + "-" + path + ".replay";
        { std::ofstream f(path); f << "property " << prop << "\ntarget " << t.name << "\nchoices"; for (auto c : o.ch) f << ' ' << c; f << "\nfailure " << plain(fin.msg) << "\n--- case\n" << plain(fin.log) << "\n"; }
        printf("FAILURE target=%s %s\n%s\n", t.name, plain(fin.msg).c_str(), plain(fin.log).c_str());
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str()); fflush(stdout);
        return 1; };

    if (!replay.empty() || !shrinkf.empty())
    {
        std::string tn; std::vector<uint64_t> ch;
        if (!load_replay((replay.empty() ? shrinkf : replay).c_str(), tn, ch)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
        for (auto& t : ts) if (tn == t.name)
        {
            Outcome o = run_one(t, ch, true);
            if (!replay.empty()) { printf("%s\n%s\n", plain(o.log).c_str(), o.failed ? ("FAILS: " + plain(o.msg)).c_str() : "passes"); return o.failed ? 1 : 0; }
            if (!o.failed) { printf("passes\n"); return 0; }
            return report(t, o, true);
        }
        fprintf(stderr, "no target %s\n", tn.c_str()); return 2;
    }

    uint64_t wsum = 0; for (auto& t : ts) wsum += t.weight;
    struct TR { uint64_t evals = 0, nontriv = 0, distinct = 0, trunc = 0; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; };
    std::vector<TR> res(ts.size()); int rc = 0; uint64_t violations = 0; bool stopped = false, unrepro = false;
    std::vector<Shared*> shs; for (unsigned w = 0; w < jobs; w++) shs.push_back(alloc_shared());

    // weight 0 = probe of one fixed case; a failing probe is a known finding if the known-findings file
    // lists it as open, and a violation otherwise
    std::map<std::string, std::string> open_findings;
    if (!known.empty())
    {
        std::ifstream f(known); std::string l, pre = "open: property=" + prop + " probe=";
        while (std::getline(f, l)) if (l.rfind(pre, 0) == 0) { std::string r = l.substr(pre.size()); size_t e = r.find(' '); open_findings[r.substr(0, e)] = e == std::string::npos ? "" : r.substr(e + 1); }
    }
    uint64_t known_hits = 0;
    for (size_t ti = 0; ti < ts.size() && !rc; ti++)
    {
        const Target& t = ts[ti];
        if (t.weight == 0)
        {
            Outcome o = run_one(t, {}, false);
            res[ti].evals = 1;
            if (!o.failed || o.bad) continue;
            if (open_findings.count(t.name)) { printf("KNOWN-FINDING: property=%s %s: %s\n", prop.c_str(), t.name, open_findings[t.name].c_str()); known_hits++; continue; }
            if (report(t, o, false)) { rc = 1; violations++; }
            continue;
        }
        uint64_t n = wsum ? cases * t.weight / wsum : 0; if (!n) n = 1;
        uint64_t tseed = seed * 0x9e3779b97f4a7c15ull; for (const char* c = t.name; *c; c++) tseed = (tseed ^ (unsigned char)*c) * 1099511628211ull;
        std::vector<pid_t> pids(jobs);
        for (unsigned w = 0; w < jobs; w++)
        {
            memset((void*)shs[w], 0, sizeof(Shared));
            fflush(nullptr);
            pid_t p = fork();
            if (p < 0) { perror("fork"); return 2; }
            if (p == 0)
            {
                Shared* sh = g_sh = shs[w]; redirect(g_tmp + "/w" + std::to_string(w) + ".log"); arm();
                std::vector<uint64_t> hashes;
                uint64_t every = n / jobs / 4 + 1, seen = 0;
                for (uint64_t i = w; i < n; i += jobs)
                {
                    sh->cur_index = i; sh->n = 0;
                    uint64_t x = tseed + i * 0xda942042e4dd58b5ull;
                    Source s; s.sh = sh; s.begin_random(splitmix(x));
                    Life::reset();
                    try { t.fn(s); }
                    catch (const Injected&) { fail("injected exception escaped the case"); }
                    catch (const std::exception& e) { fail(std::string("unexpected exception: ") + e.what()); }
                    catch (...) { fail("unexpected exception of unknown type"); }
                    if (s.overrun_) sh->truncated++;
                    if (s.nontrivial_) { sh->nontrivial++; hashes.push_back(s.hash_); if (w < 2 && sh->nsamples < 2 && (seen++ % every) == every / 2) sh->sample[sh->nsamples++] = i; }
                    sh->done++;
                    if ((i / jobs) % 64 == 0 && now() - t0 > maxwall) { sh->finished = 2; break; }
                }
                std::sort(hashes.begin(), hashes.end()); hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
                FILE* f = fopen((g_tmp + "/w" + std::to_string(w) + ".hash").c_str(), "wb");
                if (f) { if (!hashes.empty()) fwrite(hashes.data(), 8, hashes.size(), f); fclose(f); }
                _exit(0);
            }
            pids[w] = p;
        }
        // wait; on the first failure let the others stop
        int bad = -1; std::vector<int> status(jobs, 0); unsigned left = jobs;
        while (left)
        {
            int st; pid_t p = waitpid(-1, &st, 0);
            if (p < 0) { if (errno == EINTR) continue; break; }
            for (unsigned w = 0; w < jobs; w++) if (pids[w] == p)
            {
                status[w] = st; left--; pids[w] = -1;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && bad < 0 && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL))
                { bad = (int)w; for (unsigned v = 0; v < jobs; v++) if (pids[v] > 0) kill(pids[v], SIGKILL); }
            }
        }
        TR& r = res[ti]; std::vector<uint64_t> all;
        for (unsigned w = 0; w < jobs; w++)
        {
            r.evals += shs[w]->done; r.nontriv += shs[w]->nontrivial; r.trunc += shs[w]->truncated; if (shs[w]->finished == 2) stopped = true;
            for (unsigned k = 0; k < MAX_LABELS && shs[w]->lname[k][0]; k++) r.labels[shs[w]->lname[k]] += shs[w]->lcount[k];
            std::string hp = g_tmp + "/w" + std::to_string(w) + ".hash"; FILE* f = fopen(hp.c_str(), "rb");
            if (f) { uint64_t b; while (fread(&b, 8, 1, f) == 1) all.push_back(b); fclose(f); unlink(hp.c_str()); }
        }
        std::sort(all.begin(), all.end()); r.distinct = (uint64_t)(std::unique(all.begin(), all.end()) - all.begin());
        if (bad >= 0)
        {
            Outcome o = classify(status[bad], shs[bad], g_tmp + "/w" + std::to_string(bad) + ".log");
            std::vector<uint64_t> ch = o.ch; bool hang = o.hang;
            fprintf(stderr, "target %s case %llu: %s\n", t.name, (unsigned long long)shs[bad]->cur_index, plain(o.msg).c_str());
            Outcome oo; oo.ch = ch; oo.hang = hang; oo.msg = o.msg; oo.failed = true;
            int v = report(t, oo, true); if (v) { rc = 1; violations++; } else unrepro = true;
        }
        else
        {
            for (unsigned w = 0; w < 2 && w < jobs && r.samples.size() < 2; w++) for (unsigned k = 0; k < shs[w]->nsamples && r.samples.size() < 2; k++)
            {
                uint64_t x = tseed + shs[w]->sample[k] * 0xda942042e4dd58b5ull; Source g; static Shared* tmp = alloc_shared();
                // regenerate the choices by running the case once in a child with the random source
                uint64_t sd = splitmix(x); memset((void*)tmp, 0, sizeof(Shared)); fflush(nullptr);
                pid_t p = fork(); if (p == 0) { g_sh = tmp; redirect(g_tmp + "/one.log"); g.sh = tmp; g.begin_random(sd); Life::reset(); try { t.fn(g); } catch (...) {} _exit(0); }
                int st; waitpid(p, &st, 0);
                std::vector<uint64_t> ch(tmp->choice, tmp->choice + tmp->n);
                Outcome o = run_one(t, ch, true); if (o.log.size() > 700) { o.log.resize(700); o.log += "..."; }
                r.samples.push_back(std::string(t.name) + ": " + o.log);
            }
        }
    }
    uint64_t ev = 0, di = 0, nt = 0; for (auto& r : res) { ev += r.evals; di += r.distinct; nt += r.nontriv; }
    double wall = now() - t0;
    printf("%s %s seed=%llu: %llu cases, %llu non-trivial, %llu distinct non-trivial, %.1f s%s\n", prop.c_str(), tier.c_str(), (unsigned long long)seed, (unsigned long long)ev, (unsigned long long)nt, (unsigned long long)di, wall, stopped ? " (wall budget reached)" : "");
    for (size_t i = 0; i < ts.size(); i++)
    { printf("  %-28s %9llu cases %9llu distinct non-trivial", ts[i].name, (unsigned long long)res[i].evals, (unsigned long long)res[i].distinct); if (res[i].trunc) printf(" [%llu truncated]", (unsigned long long)res[i].trunc); for (auto& l : res[i].labels) printf("  %s=%llu", l.first.c_str(), (unsigned long long)l.second); printf("\n"); }
    if (!evidence.empty())
    {
        std::ofstream f(evidence);
        f << "{\n \"property\": " << jstr(prop) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << ev << ",\n  \"distinct_nontrivial\": " << di << ",\n  \"rule\": " << jstr(rule) << ",\n  \"targets\": {";
        for (size_t i = 0; i < ts.size(); i++)
        {
            f << (i ? "," : "") << "\n   " << jstr(ts[i].name) << ": {\"cases\": " << res[i].evals << ", \"nontrivial\": " << res[i].nontriv << ", \"distinct_nontrivial\": " << res[i].distinct << ", \"labels\": {";
            bool first = true; for (auto& l : res[i].labels) { f << (first ? "" : ", ") << jstr(l.first) << ": " << l.second; first = false; } f << "}}";
        }
        f << "\n  },\n  \"samples\": ["; bool first = true;
        for (auto& r : res) for (auto& sm : r.samples) { f << (first ? "" : ",") << "\n   " << jstr(sm); first = false; }
        if (first) f << "\n   " << jstr("none: the run ended at a violation before samples were taken");
        f << "\n  ],\n  \"known_findings_reproduced\": " << known_hits << "\n },\n \"violations\": " << violations << ",\n \"wall_s\": " << wall << "\n}\n";
    }
    (void)unrepro;
    return rc;
}
#endif
