#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>

#include <cxxabi.h>

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerRunDriver(int *argc, char ***argv, int (*cb)(const uint8_t *data, size_t size));
#endif
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" const char *__tsan_default_options()
{
    return "halt_on_error=1:exitcode=77:report_signal_unsafe=0:report_thread_leaks=0:handle_abort=1:allocator_may_return_null=0:max_allocation_size_mb=2048:history_size=4";
}
extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=2048:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=8:handle_abort=1";
}
extern "C" const char *__ubsan_default_options()
{
    return "print_stacktrace=1:halt_on_error=1";
}

namespace pbt
{
static std::string g_tier = "quick";
const std::string &Case::tier() const { return g_tier; }
std::vector<Sub> &subs()
{
    static std::vector<Sub> s;
    return s;
}
std::vector<void (*)()> &inits()
{
    static std::vector<void (*)()> s;
    return s;
}
uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
uint64_t Case::draw(uint64_t max)
{
    uint64_t v;
    if (bytes)
    {
        size_t k = max < 0x100 ? 1 : max < 0x10000 ? 2 : max < 0x100000000ull ? 4 : 8;
        v = 0;
        for (size_t i = 0; i < k && bytes_pos < bytes_n; i++)
            v |= uint64_t(bytes[bytes_pos++]) << (8 * i);
        if (v > max)
            v = v % (max + 1);
    }
    else if (replay)
    {
        v = in_pos < in_n ? in[in_pos] : 0;
        in_pos++;
        if (v > max)
            v = max == UINT64_MAX ? v : v % (max + 1);
    }
    else
    {
        rng += 0x9e3779b97f4a7c15ull;
        uint64_t r = mix(rng);
        v = max == UINT64_MAX ? r : uint64_t((unsigned __int128)(r) * (max + 1) >> 64);
    }
    size_t n = size_t(*out_n);
    if (n < out_cap)
    {
        out[n] = v;
        *out_n = n + 1;
    }
    else
        throw Discard();
    return v;
}
bool Case::chance(unsigned num, unsigned den)
{
    return draw(den - 1) >= den - num;
}
uint64_t Case::small(uint64_t max)
{
    uint64_t k = draw(7);
    if (k < 5)
        return std::min<uint64_t>(max, draw(std::min<uint64_t>(max, 3)));
    if (k < 7)
        return draw(std::min<uint64_t>(max, 17));
    return draw(max);
}

// ---- allocations ----
static thread_local bool t_on = false;
static thread_local size_t t_count = 0, t_bytes = 0, t_largest = 0;
static void on_malloc(const volatile void *, size_t n)
{
    if (t_on)
    {
        t_count++;
        t_bytes += n;
        t_largest = std::max(t_largest, n);
    }
}
static void on_free(const volatile void *) {}
AllocScope::AllocScope()
{
    static bool installed = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) > 0;
    if (!installed)
        fprintf(stderr, "pbt: malloc hooks unavailable\n"), _exit(3);
    c0 = t_count;
    b0 = t_bytes;
    t_largest = 0;
    t_on = true;
}
AllocScope::~AllocScope() { t_on = false; }
size_t AllocScope::count() const { return t_count - c0; }
size_t AllocScope::bytes() const { return t_bytes - b0; }
size_t AllocScope::largest() const { return t_largest; }

// ---- runner ----
static const size_t TAPE = 1 << 19;
struct Slot
{
    volatile uint64_t case_i, n, state, evals; // state: 0 running 1 ok 2 failed
    char msg[4000];
    uint64_t tape[TAPE];
};
static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static uint64_t shash(const std::string &s, uint64_t h)
{
    for (unsigned char c : s)
        h = mix(h ^ c);
    return h;
}
// run one case in this process; returns true if it passed
static bool run_case(const Sub &s, Case &c, std::string &msg)
{
    try
    {
        s.fn(c);
        return true;
    }
    catch (const Discard &)
    {
        c.nt = false;
        return true;
    }
    catch (const Fail &f)
    {
        msg = f.msg;
    }
    catch (const std::exception &e)
    {
        int st = 0;
        char *d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
        msg = std::string("unexpected exception ") + (d ? d : "?") + ": " + e.what();
    }
    catch (...)
    {
        msg = "unexpected exception of unknown type";
    }
    return false;
}
struct Outcome
{
    bool failed = false;
    std::string msg, notes, err;
    std::vector<uint64_t> tape;
};
static std::string g_tmp;
static std::string slurp(const std::string &p)
{
    std::string s;
    if (FILE *f = fopen(p.c_str(), "rb"))
    {
        char b[65536];
        size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0)
            s.append(b, n);
        fclose(f);
    }
    return s;
}
static Slot *new_slot()
{
    void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED)
    {
        perror("mmap");
        exit(3);
    }
    return static_cast<Slot *>(p);
}
static void redirect(const std::string &errf)
{
    int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0)
    {
        dup2(fd, 2);
        dup2(fd, 1);
    }
}
static unsigned g_case_timeout = 30;
// cases which ran in one worker, in this order; needed when a failure depends on what the process did before
struct History
{
    uint64_t base = 0;
    std::vector<uint64_t> cases;
};
static Outcome replay_history(const Sub &s, const History &h, bool notes)
{
    static Slot *slot = new_slot();
    Outcome o;
    slot->n = 0;
    slot->state = 0;
    slot->msg[0] = 0;
    std::string errf = g_tmp + "/history.err", notef = g_tmp + "/history.notes";
    unlink(notef.c_str());
    pid_t pid = fork();
    if (pid == 0)
    {
        redirect(errf);
        std::string msg;
        bool ok = true;
        for (size_t k = 0; ok && k < h.cases.size(); k++)
        {
            alarm(g_case_timeout);
            Case c;
            c.rng = mix(h.base ^ mix(h.cases[k] + 1));
            c.out = slot->tape;
            c.out_n = &slot->n;
            c.out_cap = TAPE;
            slot->n = 0;
            slot->case_i = h.cases[k];
            c.keep_notes = notes && (h.cases.size() <= 4 || k + 1 == h.cases.size());
            ok = run_case(s, c, msg);
            if (c.keep_notes)
                if (FILE *f = fopen(notef.c_str(), "ab"))
                {
                    fprintf(f, "-- case %llu\n", (unsigned long long)h.cases[k]);
                    fwrite(c.notes.data(), 1, c.notes.size(), f);
                    fclose(f);
                }
        }
        slot->state = ok ? 1 : 2;
        snprintf(slot->msg, sizeof slot->msg, "%s", msg.c_str());
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        ;
    o.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0 && slot->state == 1);
    if (o.failed)
    {
        o.msg = slot->state == 2 ? std::string(slot->msg) : "process ended abnormally (sanitizer report, signal or hang)";
        o.msg += " (after " + std::to_string(h.cases.size() - 1) + " other cases in the same process)";
        o.err = slurp(errf);
    }
    if (notes)
        o.notes = slurp(notef);
    return o;
}
// the shortest list of cases found which still fails
static History shrink_history(const Sub &s, History h, double deadline)
{
    for (size_t block = h.cases.size() / 2; block > 0;)
    {
        bool any = false;
        for (size_t i = 0; i + 1 < h.cases.size() && now() < deadline;)
        {
            History t = h;
            size_t e = std::min(i + block, h.cases.size() - 1);
            t.cases.erase(t.cases.begin() + long(i), t.cases.begin() + long(e));
            if (t.cases.size() < h.cases.size() && replay_history(s, t, false).failed)
            {
                h = t;
                any = true;
            }
            else
                i += block;
        }
        if (now() > deadline)
            break;
        if (!any || block > h.cases.size())
            block /= 2;
    }
    return h;
}
// replays a tape in a child process
static Outcome replay(const Sub &s, const std::vector<uint64_t> &tape, bool notes)
{
    static Slot *slot = new_slot();
    Outcome o;
    slot->n = 0;
    slot->state = 0;
    slot->msg[0] = 0;
    std::string errf = g_tmp + "/replay.err", notef = g_tmp + "/replay.notes";
    unlink(notef.c_str());
    pid_t pid = fork();
    if (pid == 0)
    {
        redirect(errf);
        alarm(g_case_timeout);
        Case c;
        c.replay = true;
        c.in = tape.data();
        c.in_n = tape.size();
        c.out = slot->tape;
        c.out_n = &slot->n;
        c.out_cap = TAPE;
        c.keep_notes = notes;
        std::string msg;
        bool ok = run_case(s, c, msg);
        slot->state = ok ? 1 : 2;
        snprintf(slot->msg, sizeof slot->msg, "%s", msg.c_str());
        if (notes)
            if (FILE *f = fopen(notef.c_str(), "wb"))
            {
                fwrite(c.notes.data(), 1, c.notes.size(), f);
                fclose(f);
            }
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        ;
    o.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0 && slot->state == 1);
    if (o.failed)
    {
        o.tape.assign(slot->tape, slot->tape + std::min<size_t>(TAPE, size_t(slot->n)));
        if (slot->state == 2)
            o.msg = slot->msg;
        else if (WIFSIGNALED(st))
            o.msg = WTERMSIG(st) == SIGALRM ? "hang: case did not finish within the time limit" : std::string("killed by signal ") + strsignal(WTERMSIG(st));
        else
            o.msg = "process ended abnormally (sanitizer report or terminate), exit code " + std::to_string(WEXITSTATUS(st));
        o.err = slurp(errf);
    }
    if (notes)
        o.notes = slurp(notef);
    return o;
}
static std::vector<uint64_t> shrink(const Sub &s, std::vector<uint64_t> best, double deadline)
{
    int left = 3000;
    auto attempt = [&](const std::vector<uint64_t> &t) {
        if (left-- <= 0 || now() > deadline)
            return false;
        auto o = replay(s, t, false);
        if (!o.failed)
            return false;
        // the tape which was really consumed
        auto u = o.tape;
        while (!u.empty() && u.back() == 0)
            u.pop_back();
        if (u.size() < t.size())
            best = u;
        else
            best = t;
        while (!best.empty() && best.back() == 0)
            best.pop_back();
        return true;
    };
    bool progress = true;
    while (progress && left > 0 && now() < deadline)
    {
        progress = false;
        for (size_t block = std::max<size_t>(1, best.size() / 2);; block /= 2)
        {
            for (size_t i = best.size(); i > 0 && left > 0 && now() < deadline;)
            {
                size_t from = i >= block ? i - block : 0;
                std::vector<uint64_t> t(best.begin(), best.begin() + long(from));
                if (from + block < best.size())
                    t.insert(t.end(), best.begin() + long(from + block), best.end());
                size_t before = best.size();
                if (t.size() < best.size() && attempt(t))
                {
                    progress = true;
                    i = std::min(from, best.size());
                    (void)before;
                    continue;
                }
                bool any = false;
                for (size_t j = from; j < std::min(best.size(), from + block); j++)
                    any |= best[j] != 0;
                if (any && block > 1)
                {
                    t = best;
                    for (size_t j = from; j < std::min(best.size(), from + block); j++)
                        t[j] = 0;
                    if (attempt(t))
                        progress = true;
                }
                i = std::min(from, best.size());
            }
            if (block <= 1)
                break;
        }
        for (size_t i = 0; i < best.size() && left > 0 && now() < deadline; i++)
        {
            uint64_t lo = 0, v = best[i];
            if (v == 0)
                continue;
            auto t = best;
            t[i] = 0;
            if (attempt(t))
            {
                progress = true;
                continue;
            }
            while (lo + 1 < v && left > 0 && i < best.size())
            {
                uint64_t mid = lo + (v - lo) / 2;
                t = best;
                if (i >= t.size())
                    break;
                t[i] = mid;
                if (attempt(t))
                {
                    v = mid;
                    progress = true;
                }
                else
                    lo = mid;
            }
        }
    }
    return best;
}
static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
            o += '\\', o += char(c);
        else if (c < 0x20 || c >= 0x7f)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += char(c);
    }
    return o + "\"";
}
struct Stats
{
    uint64_t evals = 0;
    std::set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
};
static void dump_stats(const Stats &st, int w)
{
    if (FILE *f = fopen((g_tmp + "/w" + std::to_string(w) + ".stats").c_str(), "wb"))
    {
        fprintf(f, "%llu %zu %zu %zu\n", (unsigned long long)st.evals, st.distinct.size(), st.labels.size(), st.samples.size());
        for (auto h : st.distinct)
            fwrite(&h, 8, 1, f);
        for (auto &[l, n] : st.labels)
            fprintf(f, "%llu %s\n", (unsigned long long)n, l.c_str());
        for (auto &x : st.samples)
        {
            fprintf(f, "%zu\n", x.size());
            fwrite(x.data(), 1, x.size(), f);
        }
        fclose(f);
    }
}
#ifdef PBT_FUZZ
// one worker of the coverage-guided mode: libFuzzer's input is the source of the choice tape
static struct
{
    const Sub *s;
    Slot *slot;
    Stats st;
    int w;
} g_fuzz;
static int fuzz_one(const uint8_t *data, size_t size)
{
    Slot *sl = g_fuzz.slot;
    Case c;
    static const uint8_t none = 0;
    c.bytes = data ? data : &none;
    c.bytes_n = size;
    c.out = sl->tape;
    c.out_n = &sl->n;
    c.out_cap = TAPE;
    sl->n = 0;
    sl->state = 0;
    c.keep_notes = g_fuzz.st.samples.size() < 3 && g_fuzz.st.evals > 500;
    std::string msg;
    if (!run_case(*g_fuzz.s, c, msg))
    {
        snprintf(sl->msg, sizeof sl->msg, "%s", msg.c_str());
        sl->state = 2;
        dump_stats(g_fuzz.st, g_fuzz.w);
        _exit(9);
    }
    sl->state = 1;
    sl->evals = ++g_fuzz.st.evals;
    if (c.nt)
    {
        g_fuzz.st.distinct.insert(c.nthash);
        if (c.keep_notes && !c.notes.empty())
            g_fuzz.st.samples.push_back(c.notes.substr(0, 600));
    }
    for (auto &l : c.labels)
        g_fuzz.st.labels[l]++;
    return 0;
}
[[noreturn]] static void fuzz_worker(const Sub &s, Slot *sl, int w, uint64_t seed, double seconds)
{
    g_fuzz.s = &s;
    g_fuzz.slot = sl;
    g_fuzz.w = w;
    atexit([] {
        dump_stats(g_fuzz.st, g_fuzz.w);
        _exit(0);
    });
    std::string corpus = g_tmp + "/corpus_" + s.name;
    mkdir(corpus.c_str(), 0700);
    uint64_t r = seed ^ mix(uint64_t(w) + 77);
    for (int k = 0; k < 40; k++)
    {
        std::string x;
        size_t n = 64u << (k % 5);
        for (size_t i = 0; i < n; i++)
            x += char(mix(r++) >> 11);
        if (FILE *f = fopen((corpus + "/s" + std::to_string(w) + "_" + std::to_string(k)).c_str(), "wb"))
        {
            fwrite(x.data(), 1, x.size(), f);
            fclose(f);
        }
    }
    std::vector<std::string> a = {"rt", corpus, "-seed=" + std::to_string(uint32_t(mix(r)) | 1u), "-max_total_time=" + std::to_string(long(seconds) + 1), "-max_len=4096", "-len_control=0",
                                  "-timeout=" + std::to_string(g_case_timeout), "-rss_limit_mb=3500", "-malloc_limit_mb=2500", "-use_value_profile=1", "-reload=5", "-artifact_prefix=" + g_tmp + "/art_", "-print_final_stats=0", "-detect_leaks=0"};
    std::vector<char *> v;
    for (auto &x : a)
        v.push_back(x.data());
    v.push_back(nullptr);
    int n = int(a.size());
    char **p = v.data();
    LLVMFuzzerRunDriver(&n, &p, fuzz_one);
    exit(0);
}
#endif
} // namespace pbt
using namespace pbt;

int main(int argc, char **argv)
{
    std::string prop, outf, rdir, rfile, only;
    uint64_t seed = 1;
    int workers = 8;
    double budget = 1e9, scale = 1;
    bool fuzz = false;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--prop") prop = v;
        else if (a == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--tier") g_tier = v;
        else if (a == "--workers") workers = atoi(v.c_str());
        else if (a == "--out") outf = v;
        else if (a == "--replay-dir") rdir = v;
        else if (a == "--replay") rfile = v;
        else if (a == "--sub") only = v;
        else if (a == "--budget") budget = atof(v.c_str());
        else if (a == "--scale") scale = atof(v.c_str());
        else if (a == "--fuzz") fuzz = v == "1";
    }
    char tmpl[] = "/tmp/pbtXXXXXX";
    g_tmp = mkdtemp(tmpl);
    atexit([] { std::string c = "rm -rf '" + g_tmp + "'"; if (system(c.c_str())) {} });

    for (auto f : inits())
        f();
    if (!rfile.empty())
    {
        std::string t = slurp(rfile), sub;
        size_t p = t.find("sub: ");
        std::vector<uint64_t> tape;
        if (p != std::string::npos)
            sub = t.substr(p + 5, t.find('\n', p) - p - 5);
        p = t.find("tape:");
        size_t e = t.find('\n', p);
        const char *q = t.c_str() + p + 5;
        while (p != std::string::npos && q < t.c_str() + e)
        {
            char *end;
            uint64_t v = strtoull(q, &end, 10);
            if (end == q)
                break;
            tape.push_back(v);
            q = end;
        }
        History hist;
        p = t.find("history:");
        if (p != std::string::npos)
        {
            tape.clear();
            e = t.find('\n', p);
            q = t.c_str() + p + 8;
            hist.base = strtoull(q, const_cast<char **>(&q), 10);
            while (q < t.c_str() + e)
            {
                char *end;
                uint64_t v = strtoull(q, &end, 10);
                if (end == q)
                    break;
                hist.cases.push_back(v);
                q = end;
            }
        }
        for (auto &s : subs())
            if (s.prop == prop && s.name == sub)
            {
                auto o = hist.cases.empty() ? replay(s, tape, true) : replay_history(s, hist, true);
                printf("%s\n%s\n%s\n", o.notes.c_str(), o.failed ? ("FAILED: " + o.msg).c_str() : "passed", o.err.c_str());
                return o.failed ? 1 : 0;
            }
        fprintf(stderr, "no such sub check: %s\n", sub.c_str());
        return 3;
    }
    double t0 = now();
    std::string js = "{\"subs\":[";
    bool first = true;
    int violations = 0;
    // time shares
    std::vector<const Sub *> todo;
    for (auto &s : subs())
        if (s.prop == prop && (only.empty() || only == s.name))
            todo.push_back(&s);
    if (todo.empty())
    {
        fprintf(stderr, "no sub checks for %s\n", prop.c_str());
        return 3;
    }
    for (size_t si = 0; si < todo.size() && !violations; si++)
    {
        auto &s = *todo[si];
        double remaining = budget - (now() - t0);
        double deadline = now() + std::max(2.0, remaining / double(todo.size() - si));
        uint64_t cases = uint64_t(double(g_tier == "thorough" ? s.thorough : s.quick) * scale);
        if (cases < 1) cases = 1;
        uint64_t base = mix(shash(s.name, shash(s.prop, mix(seed))));
        int nw = fuzz ? workers : int(std::min<uint64_t>(uint64_t(workers), cases));
        std::vector<Slot *> slots;
        std::vector<pid_t> pids;
        for (int w = 0; w < nw; w++)
        {
            slots.push_back(new_slot());
            pid_t pid = fork();
            if (pid < 0)
            {
                perror("fork");
                return 3;
            }
            if (pid == 0)
            {
                redirect(g_tmp + "/w" + std::to_string(w) + ".err");
                Slot *sl = slots.back();
#ifdef PBT_FUZZ
                if (fuzz)
                    fuzz_worker(s, sl, w, base, deadline - now());
#endif
                Stats st;
                bool failed = false;
                for (uint64_t i = uint64_t(w); i < cases && now() < deadline; i += uint64_t(nw))
                {
                    Case c;
                    c.rng = mix(base ^ mix(i + 1));
                    c.out = sl->tape;
                    c.out_n = &sl->n;
                    c.out_cap = TAPE;
                    sl->n = 0;
                    sl->case_i = i;
                    sl->state = 0;
                    c.keep_notes = st.samples.size() < 3 && i >= 3 * uint64_t(nw);
                    alarm(g_case_timeout);
                    std::string msg;
                    if (!run_case(s, c, msg))
                    {
                        snprintf(sl->msg, sizeof sl->msg, "%s", msg.c_str());
                        sl->state = 2;
                        failed = true;
                        break;
                    }
                    sl->state = 1;
                    st.evals++;
                    sl->evals = st.evals;
                    if (c.nt)
                    {
                        st.distinct.insert(c.nthash);
                        if (c.keep_notes && !c.notes.empty())
                            st.samples.push_back(c.notes.substr(0, 600));
                    }
                    for (auto &l : c.labels)
                        st.labels[l]++;
                }
                alarm(0);
                dump_stats(st, w);
                _exit(failed ? 9 : 0);
            }
            pids.push_back(pid);
        }
        int failed_w = -1, live = nw;
        std::string why;
        while (live > 0)
        {
            int st;
            pid_t p = waitpid(-1, &st, 0);
            if (p < 0)
            {
                if (errno == EINTR)
                    continue;
                break;
            }
            int w = -1;
            for (int k = 0; k < nw; k++)
                if (pids[size_t(k)] == p)
                    w = k;
            if (w < 0)
                continue;
            live--;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
                continue;
            if (failed_w < 0 && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL))
            {
                failed_w = w;
                for (int k = 0; k < nw; k++)
                    if (k != w)
                        kill(pids[size_t(k)], SIGKILL);
            }
            else if (failed_w < 0)
            {
                fprintf(stderr, "pbt: worker was killed from outside\n");
                return 3;
            }
        }
        if (failed_w >= 0)
        {
            Slot *sl = slots[size_t(failed_w)];
            std::vector<uint64_t> tape(sl->tape, sl->tape + std::min<size_t>(TAPE, size_t(sl->n)));
            int again = 0;
            Outcome o;
            for (int k = 0; k < 3; k++)
            {
                o = replay(s, tape, false);
                again += o.failed;
            }
            History hist;
            if (again < 3)
            {
                // it may depend on what the worker did before
                hist.base = base;
                for (uint64_t i = uint64_t(failed_w); i <= sl->case_i; i += uint64_t(nw))
                    hist.cases.push_back(i);
                bool twice = !fuzz && replay_history(s, hist, false).failed && replay_history(s, hist, false).failed;
                if (!twice)
                {
                    fprintf(stderr, "pbt: %s/%s case %llu failed once (%s) but only %d of 3 replays failed\n%s\n", s.prop, s.name,
                            (unsigned long long)sl->case_i, sl->msg, again, slurp(g_tmp + "/w" + std::to_string(failed_w) + ".err").c_str());
                    return 3;
                }
                hist = shrink_history(s, hist, now() + 40);
            }
            else
                tape = shrink(s, tape, now() + 40);
            again = 0;
            for (int k = 0; k < 3; k++)
            {
                o = hist.cases.empty() ? replay(s, tape, true) : replay_history(s, hist, true);
                again += o.failed;
            }
            violations++;
            std::string path = rdir + "/" + s.prop + "_" + s.name + ".txt";
            if (FILE *f = fopen(path.c_str(), "wb"))
            {
                fprintf(f, "property: %s\nsub: %s\nseed: %llu\ncase: %llu\nresult: %s\nreplays failing: %d/3\ntape:", s.prop, s.name,
                        (unsigned long long)seed, (unsigned long long)sl->case_i, o.msg.c_str(), again);
                for (auto v : tape)
                    fprintf(f, " %llu", (unsigned long long)v);
                if (!hist.cases.empty())
                {
                    fprintf(f, "\nhistory: %llu", (unsigned long long)hist.base);
                    for (auto v : hist.cases)
                        fprintf(f, " %llu", (unsigned long long)v);
                }
                fprintf(f, "\n\n%s\n%s\n", o.notes.c_str(), o.err.substr(0, 6000).c_str());
                fclose(f);
            }
            printf("FAIL %s/%s: %s\n%s\n", s.prop, s.name, o.msg.substr(0, 1500).c_str(), o.notes.substr(0, 1500).c_str());
            if (!o.err.empty())
                printf("%s\n", o.err.substr(0, 2500).c_str());
            printf("REPLAY %s\n", path.c_str());
            fflush(stdout);
        }
        Stats all;
        for (int w = 0; w < nw; w++)
        {
            FILE *f = fopen((g_tmp + "/w" + std::to_string(w) + ".stats").c_str(), "rb");
            if (!f)
            {
                all.evals += slots[size_t(w)]->evals;
                continue;
            }
            unsigned long long ev;
            size_t d, l, sm;
            if (fscanf(f, "%llu %zu %zu %zu", &ev, &d, &l, &sm) == 4)
            {
                fgetc(f);
                all.evals += ev;
                for (size_t k = 0; k < d; k++)
                {
                    uint64_t h;
                    if (fread(&h, 8, 1, f) == 1)
                        all.distinct.insert(h);
                }
                for (size_t k = 0; k < l; k++)
                {
                    unsigned long long n;
                    char b[256];
                    if (fscanf(f, "%llu %255[^\n]", &n, b) == 2)
                        all.labels[b] += n;
                }
                for (size_t k = 0; k < sm; k++)
                {
                    size_t n;
                    if (fscanf(f, "%zu", &n) != 1)
                        break;
                    fgetc(f);
                    std::string x(n, 0);
                    if (fread(x.data(), 1, n, f) != n)
                        break;
                    if (all.samples.size() < 4)
                        all.samples.push_back(x);
                }
            }
            fclose(f);
            unlink((g_tmp + "/w" + std::to_string(w) + ".stats").c_str());
        }
        for (auto *sl : slots)
            munmap(sl, sizeof(Slot));
        js += first ? "" : ",";
        first = false;
        js += "\n{\"sub\":" + jstr(s.name) + ",\"rule\":" + jstr(s.rule) + ",\"planned\":" + std::to_string(fuzz ? all.evals : cases) + ",\"evaluations\":" + std::to_string(all.evals) + ",\"distinct_nontrivial\":" +
              std::to_string(all.distinct.size()) + ",\"labels\":{";
        bool f2 = true;
        for (auto &[l, n] : all.labels)
        {
            js += (f2 ? "" : ",") + jstr(l) + ":" + std::to_string(n);
            f2 = false;
        }
        js += "},\"samples\":[";
        f2 = true;
        for (auto &x : all.samples)
        {
            js += (f2 ? "" : ",") + jstr(x);
            f2 = false;
        }
        js += "]}";
        fprintf(stderr, "%s/%s: %llu cases, %zu distinct non-trivial, %.1fs\n", s.prop, s.name, (unsigned long long)all.evals, all.distinct.size(), now() - t0);
    }
    js += "\n],\"violations\":" + std::to_string(violations) + "}\n";
    if (!outf.empty())
        if (FILE *f = fopen(outf.c_str(), "wb"))
        {
            fwrite(js.data(), 1, js.size(), f);
            fclose(f);
        }
    return violations ? 1 : 0;
}
