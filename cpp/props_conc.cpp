// P23: operations never influence one another: in several threads, nested in callbacks, after other (failed) operations
#include "common.hpp"
#include "jsonm.hpp"
#include "wire.hpp"
#include <atomic>
#include <cstring>
#include <memory>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace br;

namespace
{
std::string cat(const std::vector<std::string> &v)
{
    std::string s;
    for (auto &x : v)
        s += x + "|";
    return s;
}
struct Fault
{
    int id;
};
enum Kind
{
    PB_SIZE, PB_BUF, PB_STR, PB_RET, PB_WR, JS_SIZE, JS_STR, JS_RET, JS_WR, PB_DE, PB_DE_RD, PB_DE_NEW, JS_DE, JS_DE_RD, JS_DE_NEW, KINDS
};
const char *kind_name[] = {"pb size", "pb to buffer", "pb to string", "pb returned", "pb to writer", "json size", "json to string", "json returned",
                           "json to writer", "pb from buffer", "pb from reader", "pb new", "json from buffer", "json from reader", "json new"};
bool is_write(int k) { return k <= JS_WR; }
bool has_callback(int k) { return k == PB_WR || k == JS_WR || k == PB_DE_RD || k == JS_DE_RD; }

struct Op
{
    int id = 0, kind = 0;
    bool delim = false;
    const TypeOps *t = nullptr;
    const Obj *obj = nullptr;          // shared by every operation which writes it
    const std::string *in = nullptr;   // shared by every operation which reads it
    std::vector<uint32_t> chunks;
    long fault_at = -1;
    std::vector<std::pair<size_t, Op>> nested; // started by the callback at its n-th call
};
struct World
{
    std::vector<std::unique_ptr<Obj>> objs;
    std::vector<std::unique_ptr<std::string>> docs; // pairs: protobuf, json
    std::vector<const TypeOps *> doc_type;
    int next_id = 0;
};
using Results = std::vector<std::string>;

void run(const Op &op, Results &res, bool nested);
struct Callback
{
    const Op &op;
    Results &res;
    bool nested;
    size_t calls = 0, pos = 0;
    std::string out;
    void step()
    {
        size_t n = calls++;
        if (nested)
            for (auto &[at, o] : op.nested)
                if (at == n)
                    run(o, res, true);
        if (op.fault_at == long(n))
            throw Fault{op.id};
    }
    size_t operator()(void *p, size_t n)
    {
        bool before = calls % 2;
        if (before)
            step();
        if (!op.chunks.empty())
            n = std::min<size_t>(n, op.chunks[calls % op.chunks.size()]);
        n = std::min(n, op.in->size() - pos);
        memcpy(p, op.in->data() + pos, n);
        pos += n;
        if (!before)
            step(); // with the answer already in the library's buffer
        return n;
    }
    void operator()(const void *p, size_t n)
    {
        step();
        out.append(static_cast<const char *>(p), n);
    }
};
// the outcome of one operation, as text
std::string outcome(const Op &op, Results &res, bool nested)
{
    const TypeOps &t = *op.t;
    const bool d = op.delim;
    Callback cb{op, res, nested};
    std::string r;
    try
    {
        if (is_write(op.kind))
        {
            const void *p = op.obj->p;
            std::string s;
            size_t n = 0;
            switch (op.kind)
            {
            case PB_SIZE: n = t.pb_size(p, d); break;
            case PB_BUF:
                s.resize(t.pb_size(p, d));
                n = t.pb_buf(p, s.data(), d);
                break;
            case PB_STR: n = t.pb_str(p, s, d); break;
            case PB_RET: s = t.pb_ret(p, d); break;
            case PB_WR:
                n = t.pb_wr(p, [&](const void *q, size_t k) { cb(q, k); }, d);
                s = cb.out;
                break;
            case JS_SIZE: n = t.js_size(p); break;
            case JS_STR: n = t.js_str(p, s); break;
            case JS_RET: s = t.js_ret(p); break;
            case JS_WR:
                n = t.js_wr(p, [&](const void *q, size_t k) { cb(q, k); });
                s = cb.out;
                break;
            }
            return "wrote " + std::to_string(n) + ": " + s;
        }
        Obj o(t);
        size_t n = 0;
        switch (op.kind)
        {
        case PB_DE: n = t.pb_de_buf(o.p, op.in->data(), op.in->size(), d); break;
        case PB_DE_RD: n = t.pb_de_rd(o.p, [&](void *q, size_t k) { return cb(q, k); }, d); break;
        case JS_DE: n = t.js_de_buf(o.p, op.in->data(), op.in->size()); break;
        case JS_DE_RD: n = t.js_de_rd(o.p, [&](void *q, size_t k) { return cb(q, k); }); break;
        case PB_DE_NEW: return "read " + render(Obj(t, t.pb_de_new(*op.in, d)).tree());
        case JS_DE_NEW: return "read " + render(Obj(t, t.js_de_new(*op.in)).tree());
        }
        return "read " + std::to_string(n) + ": " + render(o.tree());
    }
    catch (const Fault &f)
    {
        return "fault " + std::to_string(f.id) + " after " + cb.out;
    }
    catch (const std::exception &e)
    {
        return std::string("refused: ") + e.what() + " after " + cb.out;
    }
}
// the result is noted under the operation's number
void run(const Op &op, Results &res, bool nested)
{
    auto s = outcome(op, res, nested);
    res[size_t(op.id)] = std::move(s);
}
void all_ops(const Op &op, std::vector<const Op *> &l)
{
    l.push_back(&op);
    for (auto &n : op.nested)
        all_ops(n.second, l);
}
const std::vector<std::string> &dict()
{
    static const std::vector<std::string> d = {"\xff", std::string(1, '\0'), "\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80", "\"", "\\u12", "}", "null", "1e999", "\\ud800", "\xed\xa0\x80"};
    return d;
}
World gen_world(Case &c, unsigned max_types)
{
    World w;
    GenOpt g;
    g.nodes = 12;
    g.depth = 3;
    unsigned types = 1 + unsigned(c.draw(max_types - 1));
    for (unsigned k = 0; k < types; k++)
    {
        auto &t = pick_type(c);
        for (unsigned i = 0, n = 1 + unsigned(c.draw(2)); i < n; i++)
        {
            g.long_strings = int(c.draw(2));
            Msg m = c.chance(1, 60) ? gen_huge(c, t.info()) : gen_msg(c, t.info(), g);
            w.objs.emplace_back(new Obj(t, m));
            std::string pb, js;
            WireVar v;
            v.order = v.pack = v.pad = v.mapvar = v.unknown = v.merge = c.chance(1, 2);
            pb = wire_encode(m, &c, v);
            JsonVar j;
            j.keys = j.order = j.ws = j.esc = j.numstr = j.enumnum = j.nulls = j.unknown = j.floats = c.chance(1, 2);
            js = json_encode(m, &c, j);
            if (c.chance(1, 3))
                pb = mutate(c, pb, js, dict());
            if (c.chance(1, 3))
                js = mutate(c, js, pb, dict());
            c.note(std::string(t.name) + " " + render(m) + "\n protobuf " + show(pb) + "\n json " + text(js));
            w.docs.emplace_back(new std::string(pb));
            w.docs.emplace_back(new std::string(js));
            w.doc_type.push_back(&t);
        }
    }
    return w;
}
Op gen_op(Case &c, World &w, int depth, bool callbacks, bool faults)
{
    Op o;
    o.id = w.next_id++;
    static const int cbk[] = {PB_WR, JS_WR, PB_DE_RD, JS_DE_RD};
    o.kind = callbacks ? cbk[c.draw(3)] : int(c.draw(KINDS - 1));
    size_t i = size_t(c.draw(w.objs.size() - 1));
    o.t = w.doc_type[i];
    o.obj = w.objs[i].get();
    o.in = w.docs[2 * i + (o.kind >= JS_DE ? 1 : 0)].get();
    if (o.kind == PB_DE || o.kind == PB_DE_RD || o.kind <= PB_WR)
        o.delim = c.chance(1, 8);
    if (has_callback(o.kind))
    {
        if (c.chance(2, 3))
            for (unsigned k = 0, n = 1 + unsigned(c.draw(3)); k < n; k++)
                o.chunks.push_back(1 + uint32_t(c.chance(1, 2) ? c.draw(7) : c.draw(300)));
        if (faults && c.chance(1, 4))
            o.fault_at = long(c.draw(6));
        if (depth > 0)
            for (unsigned k = 0, n = unsigned(c.draw(3)); k < n; k++)
            {
                size_t at = size_t(c.draw(5));
                o.nested.emplace_back(at, gen_op(c, w, depth - 1, c.chance(1, 2), faults));
            }
    }
    return o;
}
std::string describe(const Op &o)
{
    std::string s = "#" + std::to_string(o.id) + " " + kind_name[o.kind] + (o.delim ? " delimited" : "") + " " + o.t->name;
    if (has_callback(o.kind) && !o.chunks.empty())
    {
        s += " chunks";
        for (auto x : o.chunks)
            s += " " + std::to_string(x);
    }
    if (o.fault_at >= 0)
        s += " fault at " + std::to_string(o.fault_at);
    for (auto &[at, n] : o.nested)
        s += " [at call " + std::to_string(at) + ": " + describe(n) + "]";
    return s;
}
const char *never = "(not started)";
std::string compare(const std::vector<const Op *> &all, const Results &a, const Results &b, const char *how)
{
    for (auto *o : all)
    {
        auto &x = a[size_t(o->id)];
        auto &y = b[size_t(o->id)];
        if (x != never && y != never && x != y)
            return describe(*o) + "\n " + how + ": " + text(x) + "\n on its own: " + text(y);
    }
    return "";
}
} // namespace

PBT(P23, nested, 6000, 120000, "at least one operation ran inside a callback of another one")
{
    World w = gen_world(c, 3);
    std::vector<Op> list;
    for (unsigned k = 0, n = 1 + unsigned(c.draw(3)); k < n; k++)
        list.push_back(gen_op(c, w, 3, true, true));
    std::vector<const Op *> all;
    for (auto &o : list)
    {
        c.note(describe(o));
        all_ops(o, all);
    }
    Results a(size_t(w.next_id), never), b(size_t(w.next_id), never);
    for (auto &o : list)
        run(o, a, true);
    size_t inner = 0;
    for (auto *o : all)
    {
        inner += a[size_t(o->id)] != never;
        run(*o, b, false);
    }
    if (inner > list.size())
        c.nontrivial(h(cat({a[0], a.back(), std::to_string(inner)})));
    c.label(inner > list.size() + 3 ? "more than three nested" : "up to three nested");
    auto bad = compare(all, a, b, "nested");
    c.check(bad.empty(), bad);
}

PBT(P23, history, 4000, 80000, "at least one operation of the sequence failed and one succeeded after it")
{
    World w = gen_world(c, 4);
    std::vector<Op> list;
    for (unsigned k = 0, n = 2 + unsigned(c.draw(20)); k < n; k++)
        list.push_back(gen_op(c, w, 0, false, true));
    std::vector<const Op *> all;
    for (auto &o : list)
    {
        c.note(describe(o));
        all_ops(o, all);
    }
    Results a(size_t(w.next_id), never), b(size_t(w.next_id), never);
    bool failed = false, after = false;
    for (auto &o : list)
    {
        run(o, a, false);
        auto &s = a[size_t(o.id)];
        bool f = s.rfind("fault", 0) == 0 || s.rfind("refused", 0) == 0;
        after |= failed && !f;
        failed |= f;
    }
    // the same operations in another order
    std::vector<size_t> order(list.size());
    for (size_t k = 0; k < order.size(); k++)
        order[k] = k;
    for (size_t k = order.size(); k > 1; k--)
        std::swap(order[k - 1], order[size_t(c.draw(k - 1))]);
    for (auto k : order)
        run(list[k], b, false);
    if (after)
        c.nontrivial(h(cat(a)));
    c.label(after ? "success after failure" : failed ? "failures last" : "no failure");
    auto bad = compare(all, a, b, "in the first order");
    c.check(bad.empty(), bad);
}

// The operations run in a process in which nothing of the library ran before; a data race ends it (ThreadSanitizer).
PBT(P23, threads, 1600, 30000, "at least two threads ran operations at the same time on a shared object or input, or with code of one type")
{
    World w = gen_world(c, 3);
    unsigned n = 2 + unsigned(c.draw(4));
    std::vector<std::vector<Op>> lists(n);
    std::vector<const Op *> all;
    bool same = c.chance(1, 3); // every thread does the same
    for (unsigned k = 0; k < n; k++)
    {
        if (same && k > 0)
        {
            // same kinds on the same objects, results of their own
            lists[k] = lists[0];
            for (auto &o : lists[k])
            {
                std::vector<const Op *> l;
                all_ops(o, l);
                for (auto *p : l)
                    const_cast<Op *>(p)->id = w.next_id++;
            }
        }
        else
            for (unsigned i = 0, m = 1 + unsigned(c.draw(5)); i < m; i++)
                lists[k].push_back(gen_op(c, w, 1, false, true));
        for (auto &o : lists[k])
        {
            c.note("thread " + std::to_string(k) + ": " + describe(o));
            all_ops(o, all);
        }
    }
    unsigned rounds = 1 + unsigned(c.draw(2));
    int fd[2];
    if (pipe(fd))
        c.discard();
    pid_t pid = fork();
    if (pid < 0)
        c.discard();
    if (pid == 0)
    {
        close(fd[0]);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        alarm(60);
        Results a(size_t(w.next_id), never), b(size_t(w.next_id), never);
        std::string bad;
        for (unsigned r = 0; r < rounds && bad.empty(); r++)
        {
            std::atomic<unsigned> ready{0};
            std::vector<std::thread> th;
            for (unsigned k = 0; k < n; k++)
                th.emplace_back(
                    [&, k]
                    {
                        ready.fetch_add(1);
                        while (ready.load() < n)
                        {
                        }
                        for (auto &o : lists[k])
                            run(o, a, true);
                    });
            for (auto &t : th)
                t.join();
            for (auto *o : all)
                run(*o, b, false);
            bad = compare(all, a, b, "with other threads");
        }
        size_t off = 0;
        while (off < bad.size())
        {
            ssize_t k = write(fd[1], bad.data() + off, bad.size() - off);
            if (k <= 0)
                break;
            off += size_t(k);
        }
        close(fd[1]);
        _exit(bad.empty() ? 0 : 1);
    }
    close(fd[1]);
    std::string bad;
    char buf[4096];
    for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) != 0;)
    {
        if (k < 0)
        {
            if (errno == EINTR)
                continue;
            break;
        }
        bad.append(buf, size_t(k));
    }
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        ;
    c.nontrivial(h(cat({std::to_string(n), w.doc_type[0]->name, describe(lists[0][0]), describe(lists[1][0])})));
    c.label(std::to_string(n) + " threads");
    c.label(same ? "same operations" : "different operations");
    c.check(bad.empty(), bad);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
        c.fail(WIFSIGNALED(st) ? std::string("threads ended by signal ") + strsignal(WTERMSIG(st))
                               : "process with threads ended with " + std::to_string(WEXITSTATUS(st)) + " (77: data race or memory error, report above)");
}
