// Explorer: exhaustive exploration of operation sequences of a generated machine
// on the real implementation, compared step by step with the reference model.
#include "rt.h"
#include <algorithm>
#include <array>
#include <chrono>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
#else
#define VH_ASAN 0
#endif

using namespace rt;
using std::string;
using std::vector;

namespace rt {
Entry registry[1024];
int registrySize = 0;
int liveStates[1024];
long eventCopies = 0;
long liveEvents = 0;
int ndcSerial = 0;
int ctorFault = 0;
int copyFault = 0;
}

// ---------------------------------------------------------------- allocation
static bool g_impl = false; // inside library code
#ifdef VH_FOOT
#include "foot.h"
#define VH_RAW_ALLOC(n) (g_impl ? foot::alloc(n) : std::malloc(n))
#define VH_RAW_FREE(p) (foot::inArena(p) ? foot::release(p) : std::free(p))
#else
#define VH_RAW_ALLOC(n) std::malloc(n)
#define VH_RAW_FREE(p) std::free(p)
namespace foot {
template <class F> void on(int, F&& f) { f(); }
inline void newRun() { }
}
#endif
static int g_inStatic = 0; // inside the initialisation of a function local static
static int g_allocFault = 0; // > 0: the n-th allocation of library code fails
static long g_live = 0; // live allocations made by library code
static int g_pattern = 0xA5; // < 0: leave memory as it is (valgrind)
static bool g_badFree = false;
#if !VH_ASAN
struct Hdr {
    std::uint64_t magic;
    std::uint32_t size;
    std::uint32_t tag;
};
static_assert(sizeof(Hdr) == 16);
static void* vhAlloc(std::size_t n)
{
    if (g_allocFault > 0 && g_impl && --g_allocFault == 0) throw std::bad_alloc();
    Hdr* h = static_cast<Hdr*>(VH_RAW_ALLOC(n + sizeof(Hdr) + 16));
    if (!h) std::abort();
    h->magic = 0xfeedfacecafebeefULL;
    h->size = std::uint32_t(n);
    h->tag = g_impl && !g_inStatic;
    if (h->tag) {
        ++g_live;
        if (g_pattern >= 0) std::memset(h + 1, g_pattern, n + 16);
    }
    return h + 1;
}
static void vhFree(void* p)
{
    if (!p) return;
    Hdr* h = static_cast<Hdr*>(p) - 1;
    if (h->magic != 0xfeedfacecafebeefULL) {
        g_badFree = true;
        return;
    }
    h->magic = 0xdeaddeaddeaddeadULL;
    if (h->tag) {
        --g_live;
        if (g_pattern >= 0) std::memset(p, 0xDD, h->size);
    }
    VH_RAW_FREE(h);
}
void* operator new(std::size_t n) { return vhAlloc(n); }
void* operator new[](std::size_t n) { return vhAlloc(n); }
void operator delete(void* p) noexcept { vhFree(p); }
void operator delete[](void* p) noexcept { vhFree(p); }
void operator delete(void* p, std::size_t) noexcept { vhFree(p); }
void operator delete[](void* p, std::size_t) noexcept { vhFree(p); }
#endif
struct InImpl {
    bool old;
    explicit InImpl(bool v) : old(g_impl) { g_impl = v; }
    ~InImpl() { g_impl = old; }
};

// -------------------------------------------------------------- projections
enum Flag : unsigned {
    F_CFG = 1, // configuration after every operation
    F_RET = 2, // return value
    F_ACT = 4, // which actions ran, in which order
    F_EE = 8, // complete exit/action/entry sequence
    F_UNX = 16, // unexpected handler: calls and arguments
    F_GRD = 32, // guards called only for matching rows, right arguments
    F_OBJ = 64, // state arguments: the right state
    F_ID = 128, // state arguments: always the same object
    F_DATA = 256, // state arguments: data persists
    F_EVT = 512, // event argument
    F_DEP = 1024, // dependency arguments
    F_LIVE = 2048, // object counts
    F_LEAK = 4096, // allocations released
    F_Q = 8192, // all queries
    F_EXC = 16384, // exceptions propagate
    F_LOG = 32768, // std::cout
    F_ONCE = 65536, // multiset of actions
    F_CONSTR = 131072, // no callbacks outside of process_event
};
static const std::pair<const char*, unsigned> flagNames[] = { { "CFG", F_CFG }, { "RET", F_RET }, { "ACT", F_ACT },
    { "EE", F_EE }, { "UNX", F_UNX }, { "GRD", F_GRD }, { "OBJ", F_OBJ }, { "ID", F_ID }, { "DATA", F_DATA },
    { "EVT", F_EVT }, { "DEP", F_DEP }, { "LIVE", F_LIVE }, { "LEAK", F_LEAK }, { "Q", F_Q }, { "EXC", F_EXC },
    { "LOG", F_LOG }, { "CONSTR", F_CONSTR } };

// ---------------------------------------------------------------- operations
enum OpType { EV, SET, SETDEP, QUERY, DESTROY, CREATE, MOVE };
static constexpr int MOVE_ONTO = 4; // ways to move: see Driver::move in gen.py
static const char* opNames[] = { "EV", "SET", "SETDEP", "QUERY", "DESTROY", "CREATE", "MOVE" };
struct Op {
    int type = EV;
    int inst = 0;
    int a = 0; // event | region | dependency set | way to move
    int b = 0; // parent (SET) | machine to move from
    int c = 0; // state (SET); form of set
    int rv = 0; // event passed as temporary
    std::uint64_t bits = 0; // guard answers
    int horizon = -1; // guards answer false once that many callbacks ran
    int thr = -1; // callback index that throws; 1000 + g: guard g throws
    int nestAt = -1; // callback index at which the nested operation runs
    int nInst = 0, nEv = 0;
    std::uint64_t nBits = 0;
    string str() const
    {
        std::ostringstream o;
        o << opNames[type] << ' ' << inst << ' ' << a << ' ' << b << ' ' << c << ' ' << rv << ' ' << bits << ' ' << horizon << ' '
          << thr << ' ' << nestAt << ' ' << nInst << ' ' << nEv << ' ' << nBits;
        return o.str();
    }
    static Op parse(std::istream& i)
    {
        Op o;
        string t;
        i >> t >> o.inst >> o.a >> o.b >> o.c >> o.rv >> o.bits >> o.horizon >> o.thr >> o.nestAt >> o.nInst >> o.nEv >> o.nBits;
        for (int k = 0; k < 7; k++)
            if (t == opNames[k]) o.type = k;
        return o;
    }
};
using Path = vector<Op>;

// ---------------------------------------------------------------- observation
constexpr int MAXDEP = 6;
struct Obs {
    Kind kind {};
    int id = 0;
    EvRef ev {};
    StRef src {}, tgt {};
    int ndeps = 0;
    const void* deps[MAXDEP] {};
};
struct Result {
    vector<Obs> log; // callbacks
    vector<Obs> guards;
    bool threw = false, otherExc = false;
    int boom = -1;
    FireResult fr;
    const void* evAddr = nullptr;
    bool runaway = false;
    long copies = 0;
    string out;
};
struct Runaway { };

struct Ctx {
    Result* res = nullptr;
    std::uint64_t bits = 0;
    int horizon = -1;
    int thr = -1;
    int nestAt = -1;
    std::function<void()> nested;
    Ctx* up = nullptr;
};
static Ctx* g_ctx = nullptr;
static bool g_strayCallback = false;

static Obs mkObs(Kind k, int id, const EvRef& ev, const StRef& s, const StRef& t, const void* const* deps, int nd)
{
    Obs o;
    o.kind = k;
    o.id = id;
    o.ev = ev;
    o.src = s;
    o.tgt = t;
    o.ndeps = nd;
    for (int i = 0; i < nd && i < MAXDEP; i++) o.deps[i] = deps[i];
    return o;
}
struct BoomStd : std::runtime_error {
    int id;
    explicit BoomStd(int id) : std::runtime_error("boom" + std::to_string(id)), id(id) {}
};
[[noreturn]] static void throwBoom(int thr)
{
    if (thr >= rt::THR_KIND) throw BoomStd(thr);
    throw rt::Boom { thr };
}
namespace rt {
bool guardCall(int id, EvRef ev, StRef src, StRef tgt, const void* const* deps, int nd)
{
    InImpl off(false);
    if (!g_ctx) {
        g_strayCallback = true;
        return false;
    }
    Result& r = *g_ctx->res;
    if (r.guards.size() > 4000) {
        r.runaway = true;
        throw Runaway {};
    }
    r.guards.push_back(mkObs(GUARD, id, ev, src, tgt, deps, nd));
    if (g_ctx->thr >= 0 && g_ctx->thr % THR_KIND == 1000 + id) throwBoom(g_ctx->thr);
    if (g_ctx->horizon >= 0 && int(r.log.size()) >= g_ctx->horizon) return false;
    return (g_ctx->bits >> id) & 1;
}
void call(Kind kind, int id, EvRef ev, StRef src, StRef tgt, const void* const* deps, int nd)
{
    InImpl off(false);
    if (!g_ctx) {
        g_strayCallback = true;
        return;
    }
    Ctx* c = g_ctx;
    Result& r = *c->res;
    const int k = int(r.log.size());
    if (k > 2000) {
        r.runaway = true;
        throw Runaway {};
    }
    r.log.push_back(mkObs(kind, id, ev, src, tgt, deps, nd));
    if (c->nestAt == k && c->nested) c->nested();
    if (c->thr >= 0 && c->thr % THR_KIND == k) throwBoom(c->thr);
}
}

#if !VH_ASAN && !defined(VH_FOOT)
// function local statics of the library: allocated once and for all machines
extern "C" {
int __cxa_guard_acquire(std::uint64_t* g)
{
    if (*reinterpret_cast<unsigned char*>(g)) return 0;
    g_inStatic++;
    return 1;
}
void __cxa_guard_release(std::uint64_t* g)
{
    *reinterpret_cast<unsigned char*>(g) = 1;
    g_inStatic--;
}
void __cxa_guard_abort(std::uint64_t*) { g_inStatic--; }
}
#endif

// ---------------------------------------------------------------- the model
struct Exp {
    Kind kind;
    int id;
    int ev, payload, touched;
    int whose; // 0: the caller's object, 1: a recalled copy, 2: anonymous
    bool evCopy; // factory / reuse: gets its own copy of the event
    int src, tgt; // state types; -1 none
    bool srcCopy;
    int sn, tn;
    int sg = 0, tg = 0; // which object of the state (create_state replaces it)
    int made = -1; // the state that gets the object of this factory call
};
struct AllowedGuard {
    int id, ev, src, tgt;
};
struct Model {
    const Desc* d = nullptr;
    bool alive = true;
    vector<std::pair<int, int>> cfg; // (parent, state) per region
    vector<int> hist; // [parent * R + region] -> state or -1
    struct Pend {
        int ev, payload;
    };
    vector<Pend> queue;
    vector<int> n; // user data per state object
    vector<int> exists;
    vector<vector<const void*>> addr; // learned object addresses, per state and generation
    vector<int> gen; // how often the object of the state was replaced
    int depSet = 0;
    int depInst = -1; // the instance whose dependencies are injected (-1: its own)

    void init(const Desc& desc)
    {
        d = &desc;
        alive = true;
        cfg = desc.init;
        hist.assign(desc.parents.size() * cfg.size(), -1);
        queue.clear();
        n.assign(desc.nS(), 0);
        exists.assign(desc.nS(), 1);
        for (int i = 0; i < desc.nS(); i++)
            if (desc.ndc[i] || desc.absent[i]) exists[i] = 0;
        forgetAddr();
        depSet = 0;
        depInst = -1;
    }
    void forgetAddr()
    {
        addr.assign(d->nS(), {});
        gen.resize(d->nS(), 0);
    }
    const void*& addrOf(int s, int g)
    {
        auto& v = addr[s];
        if (int(v.size()) <= g) v.resize(g + 1, nullptr);
        return v[g];
    }
    const void* lastAddr(int s) { return addrOf(s, gen[s]); }
    string key() const
    {
        string k;
        k += alive ? 'a' : 'd';
        for (auto& c : cfg) k += char(c.first), k += char(c.second), k += char(c.second >> 8);
        for (auto h : hist) k += char(h), k += char(h >> 8);
        k += char(queue.size());
        for (auto& q : queue) k += char(q.ev);
        for (int i = 0; i < d->nS(); i++)
            if (d->ndc[i]) k += char(exists[i]);
        k += char(depSet);
        k += char(depInst);
        return k;
    }
};
// machine `to` takes over everything machine `from` was; `from` is gone
static void modelMove(Model& to, Model& from, int toIdx, int fromIdx)
{
    if (&to != &from) {
        const int owner = from.depInst < 0 ? fromIdx : from.depInst;
        to = from;
        to.depInst = owner == toIdx ? -1 : owner;
        from.alive = false;
        from.queue.clear();
    }
    to.forgetAddr(); // nobody promises that the objects keep their addresses
}
struct ModelThrow {
    int code;
};
struct Diverged { };
struct Exec { // result of one modelled operation
    vector<Exp> log;
    vector<AllowedGuard> allowed;
    vector<int> order; // guards in order of first consultation
    std::uint64_t consulted = 0;
    bool ret = false;
    bool threw = false;
    int boom = -1;
    bool deferredAny = false;
    int ownCallbacks = 0; // callbacks that got the caller's event
    int thrRegion = -1;
    std::pair<int, int> thrSrc {};
    vector<int> thrHist;
    bool thrInRecall = false;
    bool unspecified = false; // the library's documented domain is left (missing target object)
    int nCreated = 0, nReplaced = 0;
    vector<string> logLines;
};

// order in which completion transitions look at the regions: "prefix" is the
// behaviour pinned by the repository's own tests (see DESIGN.md, finding C09)
static bool g_completionAllRegions = false;

struct Interp {
    Model& m;
    const Op& op;
    Exec& x;
    int alt;
    int region = -1;
    int steps = 0;
    Interp(Model& mm, const Op& o, Exec& e, int al) : m(mm), op(o), x(e), alt(al) { }
    const Desc& d() { return *m.d; }

    bool guard(int g)
    {
        if (g < 0) return true;
        if (!((x.consulted >> g) & 1)) {
            x.consulted |= 1ULL << g;
            x.order.push_back(g);
        }
        if (op.thr >= 0 && op.thr % THR_KIND == 1000 + g) {
            x.thrRegion = -1;
            throw ModelThrow { op.thr };
        }
        if (op.horizon >= 0 && int(x.log.size()) >= op.horizon) return false;
        return (op.bits >> g) & 1;
    }
    // one callback with the objects of `src` and `tgt`
    void emit(Kind k, int id, int e, int payload, int whose, int& touched, int src, int tgt, int special = 0)
    {
        Exp o { k, id, e, payload, touched, whose, special != 0 && (k == ACTION || k == FACTORY), src, tgt,
            special != 0 && (k == ACTION || k == FACTORY), src >= 0 ? m.n[src] : 0, tgt >= 0 ? m.n[tgt] : 0 };
        if (tgt >= 0 && !m.exists[tgt]) o.tgt = -2; // not created yet
        o.sg = src >= 0 ? m.gen[src] : 0;
        o.tg = tgt >= 0 ? m.gen[tgt] : 0;
        if (k == FACTORY) {
            o.tgt = -1;
            o.made = tgt;
        } else {
            if (!o.evCopy && e >= 0) touched++;
            if (whose == 0 && !o.evCopy) x.ownCallbacks++;
            if (src >= 0 && !o.srcCopy) m.n[src]++;
            if (tgt >= 0) m.n[tgt]++;
        }
        const int k0 = int(x.log.size());
        x.log.push_back(o);
        if (op.thr >= 0 && op.thr % THR_KIND == k0) throw ModelThrow { op.thr };
    }
    void fire(const Row& r, int reg, int e, int payload, int whose, int& touched)
    {
        auto& c = m.cfg[reg];
        const int R = int(m.cfg.size());
        x.thrSrc = c;
        x.thrHist = m.hist;
        x.thrRegion = reg;
        int src = r.srcObj, tgt = r.tgtObj;
        if (r.internal) {
            src = tgt = c.second;
        } else {
            m.hist[c.first * R + reg] = c.second;
            if (r.histP >= 0) {
                const int h = m.hist[r.histP * R + reg];
                c = { r.histP, h >= 0 ? h : d().initialOf[r.histP] };
            } else {
                c = { r.tp, r.ts };
            }
        }
        if ((src >= 0 && !m.exists[src]) || (tgt >= 0 && !m.exists[tgt] && r.special != 1)) x.unspecified = true;
        if (r.special == 1 && r.guard >= 0 && tgt >= 0 && !m.exists[tgt]) x.unspecified = true;
        if (r.exitS >= 0) emit(EXIT, r.exitS, e, payload, whose, touched, src, tgt);
        if (r.special == 1) {
            const int sn = m.n[src];
            emit(FACTORY, r.act[0], e, payload, whose, touched, src, tgt, 1);
            if (m.exists[tgt])
                x.nReplaced++;
            else
                x.nCreated++;
            m.exists[tgt] = 1;
            m.gen[tgt]++;
            m.n[tgt] = 1000 + (e >= 0 ? payload : 0) * 10 + sn;
        } else {
            for (int a : r.act) emit(ACTION, a, e, payload, whose, touched, src, tgt, r.special == 2 ? 2 : 0);
        }
        if (r.special == 3)
            x.logLines.push_back(d().states[src] + " + " + (e < 0 ? "noneEvent" : d().events[e]) + " = " + d().states[tgt]);
        if (r.entryS >= 0) emit(ENTRY, r.entryS, e, payload, whose, touched, src, tgt);
        if (r.entry2 >= 0) emit(ENTRY, r.entry2, e, payload, whose, touched, src, tgt);
        x.thrRegion = -1;
    }
    // returns: -1 no candidate, 0 guards refused, 1 fired
    int dispatch(int reg, int e, int payload, int whose, int& touched)
    {
        const auto [p, s] = m.cfg[reg];
        const auto& cs = d().cand[(p * d().nS() + s) * (d().nE() + 1) + (e < 0 ? d().nE() : e)];
        if (cs.empty()) return -1;
        for (int ri : cs) {
            const Row& r = d().rows[ri];
            if (r.guard >= 0) {
                const int src = r.internal ? s : r.srcObj, tgt = r.internal ? s : r.tgtObj;
                if (!m.exists[src] || !m.exists[tgt]) x.unspecified = true;
                x.allowed.push_back({ r.guard, e, src, tgt });
            }
        }
        for (int ri : cs) {
            const Row& r = d().rows[ri];
            if (guard(r.guard)) {
                fire(r, reg, e, payload, whose, touched);
                return 1;
            }
        }
        return 0;
    }
    enum PR { INVALID, REFUSED, DONE, DEFERRED };
    PR process(int e, int payload, int whose)
    {
        for (auto& c : m.cfg)
            if (d().defer[c.second] >> e & 1) {
                m.queue.push_back({ e, payload });
                x.deferredAny = true;
                return DEFERRED;
            }
        bool any = false, fired = false;
        int touched = 0;
        for (int r = 0; r < int(m.cfg.size()); r++) {
            const int k = dispatch(r, e, payload, whose, touched);
            if (k >= 0) any = true;
            if (k > 0) fired = true;
        }
        if (whose == 0 && !any && d().unexp) {
            // handled by the caller (needs `touched`)
        }
        if (!any) return INVALID;
        if (!fired) return REFUSED;
        completion();
        return DONE;
    }
    void completion()
    {
        int none = 0;
        while (true) {
            bool fired = false;
            for (int r = 0; r < int(m.cfg.size()); r++) {
                const int k = dispatch(r, -1, 0, 2, none);
                if (k < 0 && !g_completionAllRegions) break;
                if (k > 0) fired = true;
                if (++steps > 64 + std::max(0, op.horizon)) throw Diverged {};
            }
            if (!fired) return;
        }
    }
    void recall()
    {
        bool again = true;
        while (again) {
            again = false;
            for (auto pending = m.queue.size(); pending > 0; pending--) {
                auto q = m.queue.front();
                m.queue.erase(m.queue.begin());
                try {
                    if (process(q.ev, q.payload, 1) == DONE) again = true;
                } catch (ModelThrow&) {
                    x.thrInRecall = true;
                    // events that were not offered yet come behind those already offered: arrival order
                    std::rotate(m.queue.begin(), m.queue.begin() + long(pending - 1), m.queue.end());
                    if (alt == 1) m.queue.insert(m.queue.begin() + long(m.queue.size() - (pending - 1)), q);
                    if (alt == 2) m.queue.insert(m.queue.begin(), q);
                    if (alt == 3) m.queue.push_back(q);
                    throw;
                }
                if (++steps > 64 + std::max(0, op.horizon) + 8 * int(m.queue.size())) throw Diverged {};
            }
        }
    }
    void event(int e, int payload)
    {
        try {
            const auto r = process(e, payload, 0);
            if (r == INVALID && d().unexp) {
                int touched = 0;
                emit(UNEXP, 0, e, payload, 0, touched, m.cfg[0].second, -1);
            }
            if (r == DONE) {
                x.ret = true;
                recall();
            }
        } catch (ModelThrow& t) {
            x.threw = true;
            x.boom = t.code;
            x.ret = false;
        }
    }
};

// ---------------------------------------------------------------- world
static vector<Dep> g_depPool;
struct Instance {
    Driver* drv = nullptr;
    Model m;
};
struct Options {
    vector<string> machines; // one per instance
    unsigned flags = 0;
    int pattern = 0xA5;
    int alt = 0;
    bool resync = true;
    bool diff = false; // lockstep: instance 1 mirrors instance 0
};
struct Counters {
    long runs = 0, ops = 0, cmp = 0, desync = 0, callbacks = 0, guardCalls = 0;
} g_cnt;

static string cfgStr(const Desc& d, const vector<std::pair<int, int>>& c)
{
    string o;
    for (auto& p : c)
        o += (o.empty() ? "" : " | ") + (p.first < 0 ? string("?") : d.states[d.parents[p.first]]) + "/" + (p.second < 0 ? string("?") : d.states[p.second]);
    return o;
}

class World {
  public:
    Options opt;
    vector<Instance> inst;
    string err; // first violation
    int errOp = -1;
    bool altUsed = false; // an unspecified choice was made (see Interp::recall)
    std::map<string, string> statusOf, cfgOf;
    int serial = 0;
    long leak0 = 0;
    long ev0 = 0;
    vector<int> live0;
    bool unspecified = false;

    explicit World(const Options& o, const vector<Driver*>& pool) : opt(o)
    {
        foot::newRun();
        live0.assign(liveStates, liveStates + 1024);
        leak0 = g_live;
        ev0 = liveEvents;
        g_pattern = opt.pattern;
        inst.resize(opt.machines.size());
        for (size_t i = 0; i < inst.size(); i++) {
            inst[i].drv = pool[i];
            create(int(i));
        }
        checkLive("construction");
#ifdef VH_FOOT
        if (!foot::conflict.empty()) fail(foot::conflict);
#endif
    }
    ~World()
    {
        for (auto& i : inst)
            if (i.m.alive) {
                foot::on(int(&i - &inst[0]), [&] {
                    InImpl on(true);
                    i.drv->destroy();
                });
            }
    }
    vector<Dep*> depsFor(int instIdx, int set)
    {
        vector<Dep*> v;
        for (int k = 0; k < inst[instIdx].m.d->ndeps; k++) v.push_back(&g_depPool[(instIdx * 8 + set) * 8 + k]);
        return v;
    }
    void fail(const string& e)
    {
        if (err.empty()) err = e;
    }
    void create(int i)
    {
        auto& in = inst[i];
        in.m.init(in.drv->desc());
        g_strayCallback = false;
        auto deps = depsFor(i, 0);
        try {
            foot::on(i, [&] {
                InImpl on(true);
                in.drv->create(opt.pattern, deps);
            });
        } catch (std::exception& e) {
            fail(string("constructor threw ") + e.what());
        }
        if (g_strayCallback && (opt.flags & (F_CONSTR | F_EE | F_ACT))) fail("the constructor ran a user callback");
        in.m.alive = true;
        checkCfg(i, "after construction");
    }
    void destroy(int i)
    {
        auto& in = inst[i];
        g_strayCallback = false;
        foot::on(i, [&] {
            InImpl on(true);
            in.drv->destroy();
        });
        in.m.alive = false;
        if (g_strayCallback && (opt.flags & (F_CONSTR | F_EE))) fail("the destructor ran a user callback");
    }
    // configuration the implementation reports
    bool actual(int i, vector<std::pair<int, int>>& out, string& why)
    {
        bool ok = false;
        foot::on(i, [&] { ok = actual_(i, out, why); });
        return ok;
    }
    bool actual_(int i, vector<std::pair<int, int>>& out, string& why)
    {
        auto& in = inst[i];
        const Desc& d = *in.m.d;
        out.clear();
        for (int r = 0; r < int(in.m.cfg.size()); r++) {
            int found = 0;
            std::pair<int, int> f { -1, -1 };
            for (auto& pr : d.pairs) {
                bool v = false;
                try {
                    InImpl on(true);
                    v = in.drv->is(r, pr.first, pr.second);
                } catch (std::exception& e) {
                    why = string("is(region,...) threw ") + e.what();
                    return false;
                }
                if (v) {
                    found++;
                    f = pr;
                }
            }
            out.push_back(f);
            if (found != 1) {
                why = "region " + std::to_string(r) + ": " + std::to_string(found) + " (parent, state) pairs are reported as current";
                return false;
            }
        }
        return true;
    }
    void checkCfg(int i, const char* when)
    {
        auto& in = inst[i];
        if (!in.m.alive) return;
        vector<std::pair<int, int>> a;
        string why;
        g_strayCallback = false;
        const bool ok = actual(i, a, why);
        g_cnt.cmp++;
        if (ok && a == in.m.cfg) return;
        if (opt.flags & F_CFG) {
            fail(string("configuration ") + when + ": expected " + cfgStr(*in.m.d, in.m.cfg) + ", is " + cfgStr(*in.m.d, a)
                + (why.empty() ? "" : " (" + why + ")"));
        } else {
            g_cnt.desync++;
            if (ok)
                in.m.cfg = a;
            else
                fail("@desync"); // prune: nothing to compare with any more
        }
    }
    void checkLive(const char* when)
    {
        if (!(opt.flags & F_LIVE)) return;
        // every instance that is alive owns one object per state type
        vector<int> want = live0;
        for (auto& in : inst)
            if (in.m.alive)
                for (int s = 0; s < in.m.d->nS(); s++) want[s] += in.m.exists[s];
        for (size_t s = 0; s < want.size(); s++)
            if (liveStates[s] != want[s] && !(s < inst[0].m.d->unnamed.size() && inst[0].m.d->unnamed[s] && liveStates[s] == live0[s])) {
                fail(string("state objects ") + when + ": " + std::to_string(liveStates[s] - live0[s]) + " objects of state #" + std::to_string(s)
                    + " exist, expected " + std::to_string(want[s] - live0[s]));
                return;
            }
        long q = 0;
        for (auto& in : inst)
            if (in.m.alive) q += long(in.m.queue.size());
        if (liveEvents - ev0 != q)
            fail(string("event objects ") + when + ": " + std::to_string(liveEvents - ev0) + " exist, " + std::to_string(q) + " are pending");
    }
    static string obsStr(const Desc& d, const Obs& o)
    {
        static const char* kn[] = { "guard", "action", "on_entry", "on_exit", "on_unexpected_event", "factory" };
        auto st = [&](const StRef& s) -> string {
            return s.type >= 0 && s.type < d.nS() ? d.states[s.type] : s.type == -2 ? "null" : s.type == -1 ? "-" : "garbage";
        };
        return string(kn[o.kind]) + "#" + std::to_string(o.id) + "(" + (o.ev.type < 0 ? string("none") : o.ev.type < d.nE() ? d.events[o.ev.type] : "?") + ", "
            + st(o.src) + ", " + st(o.tgt) + ")";
    }
    static string expStr(const Desc& d, const Exp& e)
    {
        Obs o;
        o.kind = e.kind;
        o.id = e.id;
        o.ev.type = e.ev;
        o.src.type = e.src;
        o.tgt.type = e.tgt;
        return obsStr(d, o);
    }
    string seqStr(const Desc& d, const vector<Obs>& l)
    {
        string s;
        for (auto& o : l) s += (s.empty() ? "" : " ") + obsStr(d, o);
        return "[" + s + "]";
    }
    string seqStr(const Desc& d, const vector<Exp>& l)
    {
        string s;
        for (auto& o : l) s += (s.empty() ? "" : " ") + expStr(d, o);
        return "[" + s + "]";
    }
    void compareIdentity(int i, const StRef& a, int type, int gen, int n, bool copy, const string& what)
    {
        if (type < 0) return;
        auto& m = inst[i].m;
        if ((opt.flags & F_OBJ) && a.type != type)
            fail(what + " got the object of state " + (a.type >= 0 && a.type < m.d->nS() ? m.d->states[a.type] : string("<none>")) + " instead of "
                + m.d->states[type]);
        if (a.type != type) return;
        if ((opt.flags & F_ID) && !copy) {
            const void*& known = m.addrOf(type, gen);
            if (!known) {
                for (auto& o : inst)
                    if (o.m.alive)
                        for (int s = 0; s < o.m.d->nS(); s++)
                            if (!(&o.m == &m && s == type) && o.m.lastAddr(s) == a.addr) fail(what + ": state object shared with another state or machine");
                known = a.addr;
            } else if (known != a.addr) {
                fail(what + " got a different " + m.d->states[type] + " object than earlier callbacks");
            }
        }
        if ((opt.flags & F_DATA) && a.n != n)
            fail(what + " sees data " + std::to_string(a.n) + " in " + m.d->states[type] + " but earlier callbacks left " + std::to_string(n));
    }
    void compare(int i, const Op& op, const Exec& x, Result& r, int payload)
    {
        auto& m = inst[i].m;
        const Desc& d = *m.d;
        const unsigned f = opt.flags;
        g_cnt.cmp++;
        g_cnt.callbacks += long(r.log.size());
        g_cnt.guardCalls += long(r.guards.size());
        if (r.runaway) {
            fail("endless: more than 2000 callbacks or 4000 guard calls for one event");
            return;
        }
        if (r.otherExc) {
            fail("process_event threw an exception that no callback threw");
            return;
        }
        if (f & F_EXC) {
            if (x.threw != r.threw) fail(x.threw ? "the exception of a callback did not reach the caller" : "unexpected exception");
            if (x.threw && r.threw && x.boom != r.boom) fail("the caller got the exception of another callback");
        } else if (x.threw != r.threw) {
            fail("@desync");
            return;
        }
        if ((f & F_RET) && !x.threw && !r.threw && x.ret != r.fr.ret)
            fail(string("process_event returned ") + (r.fr.ret ? "true" : "false") + ", expected " + (x.ret ? "true" : "false"));
        auto sub = [&](auto pred, const char* what) {
            vector<Exp> e;
            vector<Obs> a;
            for (auto& o : x.log)
                if (pred(o.kind)) e.push_back(o);
            for (auto& o : r.log)
                if (pred(o.kind)) a.push_back(o);
            bool same = e.size() == a.size();
            for (size_t k = 0; same && k < e.size(); k++) same = e[k].kind == a[k].kind && e[k].id == a[k].id;
            if (!same) fail(string(what) + ": expected " + seqStr(d, e) + ", got " + seqStr(d, a));
            return same;
        };
        if (f & F_EE) sub([](Kind k) { return k == ACTION || k == ENTRY || k == EXIT || k == FACTORY; }, "callback sequence");
        if (f & F_ACT) sub([](Kind k) { return k == ACTION || k == FACTORY; }, "action sequence");
        if (f & F_UNX) sub([](Kind k) { return k == UNEXP; }, "unexpected event handler");
        if (f & F_GRD) {
            for (auto& g : r.guards) {
                bool okRow = false, okArg = false;
                for (auto& al : x.allowed)
                    if (al.id == g.id && al.ev == g.ev.type) {
                        okRow = true;
                        if (al.src == g.src.type && al.tgt == g.tgt.type) okArg = true;
                    }
                if (!okRow)
                    fail("guard called for a row that does not match the current state and event: " + obsStr(d, g));
                else if (!okArg)
                    fail("guard called with wrong state objects: " + obsStr(d, g));
            }
        }
        // arguments, callback by callback, as far as the sequences agree
        bool aligned = x.log.size() == r.log.size();
        for (size_t k = 0; aligned && k < x.log.size(); k++) aligned = x.log[k].kind == r.log[k].kind && x.log[k].id == r.log[k].id;
        if (!aligned) {
            if (!err.empty()) return;
            g_cnt.desync++;
            // resynchronise the user data the model tracks
            m.forgetAddr();
            fail("@desync");
            return;
        }
        const bool unxOnly = (f & F_UNX) && !(f & (F_EE | F_ACT | F_OBJ | F_EVT | F_DEP));
        for (size_t k = 0; k < x.log.size(); k++) {
            const Exp& e = x.log[k];
            const Obs& o = r.log[k];
            if (unxOnly && e.kind != UNEXP) continue;
            const string what = obsStr(d, o);
            if (unxOnly) {
                if (o.src.type != e.src) fail("the unexpected event handler got the state " + std::to_string(o.src.type) + " instead of " + d.states[e.src]);
                if (o.ev.type != e.ev || o.ev.payload != payload || o.ev.addr != r.evAddr) fail("the unexpected event handler got another event");
                checkDeps(i, o, what);
                continue;
            }
            compareIdentity(i, o.src, e.src, e.sg, e.sn, e.srcCopy, what);
            compareIdentity(i, o.tgt, e.tgt, e.tg, e.tn, false, what);
            // from now on the state's object is the one the factory built
            if ((f & F_ID) && e.made >= 0 && !x.threw) m.addrOf(e.made, e.tg + 1) = o.tgt.addr;
            if (f & F_EVT) {
                if (o.ev.type != e.ev) fail(what + " got another event type");
                else if (e.ev >= 0) {
                    if (o.ev.payload != e.payload || !o.ev.ok)
                        fail(what + " got payload " + std::to_string(o.ev.payload) + (o.ev.ok ? "" : " (damaged)") + " instead of " + std::to_string(e.payload));
                    if (e.whose == 0 && !e.evCopy && o.ev.addr != r.evAddr) fail(what + " got a copy of the event instead of the caller's object");
                    if (e.whose == 1 && o.ev.addr == r.evAddr) fail(what + " got the caller's event instead of the deferred one");
                    if (o.ev.touched != e.touched)
                        fail(what + ": writes of " + std::to_string(e.touched) + " earlier callbacks expected in the event, " + std::to_string(o.ev.touched) + " seen");
                }
            }
            if ((f & F_DEP) && e.kind != FACTORY) checkDeps(i, o, what);
        }
        if (f & F_DEP)
            for (auto& g : r.guards) checkDeps(i, g, obsStr(d, g));
        if (f & F_ID)
            for (auto& g : r.guards) {
                if (g.src.type >= 0 && g.src.type < d.nS() && !d.ndc[g.src.type] && m.lastAddr(g.src.type) && m.lastAddr(g.src.type) != g.src.addr)
                    fail(obsStr(d, g) + " got another object as source");
                if (g.tgt.type >= 0 && g.tgt.type < d.nS() && !d.ndc[g.tgt.type] && m.lastAddr(g.tgt.type) && m.lastAddr(g.tgt.type) != g.tgt.addr)
                    fail(obsStr(d, g) + " got another object as target");
            }
        if (f & F_EVT) {
            for (auto& g : r.guards) {
                bool pend = false;
                if (g.ev.type >= 0 && g.ev.addr != r.evAddr) {
                    for (auto& e : x.log) (void)e;
                    pend = true; // a recalled event (only possible while recalling)
                }
                if (g.ev.type >= 0 && !g.ev.ok) fail(obsStr(d, g) + " got a damaged event");
                if (g.ev.type >= 0 && !pend && g.ev.payload != payload) fail(obsStr(d, g) + " got another payload");
            }
            if (!x.threw && !r.threw) {
                if (r.fr.touched != x.ownCallbacks)
                    fail("the caller's event was written by " + std::to_string(r.fr.touched) + " callbacks, expected " + std::to_string(x.ownCallbacks));
                if (!r.fr.same && !op.rv) fail("the caller's event was changed by the library");
            }
        }
        if (f & F_LOG) {
            string want;
            for (auto& l : x.logLines) want += l + "\n";
            if (normLog(r.out) != want) fail("printed \"" + r.out + "\", expected lines \"" + want + "\"");
        }
    }
    static string normLog(const string& s)
    { // strip namespaces from "a::b::X + c::Y = d::Z"
        std::istringstream in(s);
        string line, out;
        while (std::getline(in, line)) {
            std::istringstream w(line);
            string tok, l;
            while (w >> tok) {
                auto p = tok.rfind("::");
                if (p != string::npos) tok = tok.substr(p + 2);
                if (tok.rfind("type<", 0) == 0) tok = tok.substr(5);
                while (!tok.empty() && (tok.back() == '&' || tok.back() == '>')) tok.pop_back();
                l += (l.empty() ? "" : " ") + tok;
            }
            out += l + "\n";
        }
        return out;
    }
    void checkDeps(int i, const Obs& o, const string& what)
    {
        auto& m = inst[i].m;
        auto deps = depsFor(m.depInst < 0 ? i : m.depInst, m.depSet);
        if (o.ndeps != int(deps.size())) {
            fail(what + " got " + std::to_string(o.ndeps) + " dependencies instead of " + std::to_string(deps.size()));
            return;
        }
        for (int k = 0; k < o.ndeps && k < MAXDEP; k++)
            if (o.deps[k] != deps[k]) {
                int who = -1;
                for (size_t z = 0; z < g_depPool.size(); z++)
                    if (&g_depPool[z] == o.deps[k]) who = int(z);
                fail(what + ": dependency " + std::to_string(k) + " is not the injected object (pool slot " + std::to_string(who) + ")");
            }
    }
    // run the event on the implementation
    void fire(int i, const Op& op, int ev, std::uint64_t bits, int horizon, int thr, int nestAt, std::function<void()> nested, int payload, int rv, Result& r)
    {
        Ctx c;
        c.res = &r;
        c.bits = bits;
        c.horizon = horizon;
        c.thr = thr;
        c.nestAt = nestAt;
        c.nested = std::move(nested);
        c.up = g_ctx;
        g_ctx = &c;
        (void)op;
        std::streambuf* oldBuf = nullptr;
        std::ostringstream capture;
        if (opt.flags & F_LOG) oldBuf = std::cout.rdbuf(capture.rdbuf());
        const long copies = eventCopies;
        try {
            foot::on(i, [&] {
                InImpl on(true);
                inst[i].drv->fire(ev, payload, rv != 0, &r.evAddr, r.fr);
            });
        } catch (Boom& b) {
            r.threw = true;
            r.boom = b.id;
        } catch (std::exception& e) {
            // exactly the object that was thrown: not sliced, not wrapped
            if (typeid(e) == typeid(BoomStd) && e.what() == "boom" + std::to_string(static_cast<BoomStd&>(e).id)) {
                r.threw = true;
                r.boom = static_cast<BoomStd&>(e).id;
            } else
                r.otherExc = true;
        } catch (Runaway&) {
            r.runaway = true;
        } catch (...) {
            r.otherExc = true;
        }
        r.copies = eventCopies - copies;
        if (oldBuf) {
            std::cout.rdbuf(oldBuf);
            r.out = capture.str();
        }
        g_ctx = c.up;
    }
    void queries(int i)
    {
        foot::on(i, [&] { queries_(i); });
    }
    void queries_(int i)
    {
        auto& in = inst[i];
        const Desc& d = *in.m.d;
        const auto& c = in.m.cfg;
        g_strayCallback = false;
        auto chk = [&](bool v, bool want, const string& q) {
            if (v != want) fail(q + " answers " + (v ? "true" : "false") + " in " + cfgStr(d, c));
        };
        for (int rep = 0; rep < 2; rep++) {
            for (int r = 0; r < int(c.size()); r++)
                for (size_t p = 0; p < d.parents.size(); p++)
                    for (int s = 0; s < d.nS(); s++)
                        chk(in.drv->is(r, int(p), s), c[r].first == int(p) && c[r].second == s,
                            "is(" + std::to_string(r) + ", " + d.states[d.parents[p]] + ", " + d.states[s] + ")");
            for (size_t p = 0; p < d.parents.size(); p++) {
                for (int s = 0; s < d.nS(); s++)
                    chk(in.drv->is2(int(p), s), c[0].first == int(p) && c[0].second == s, "is(" + d.states[d.parents[p]] + ", " + d.states[s] + ")");
                chk(in.drv->parentIs(int(p)), c[0].first == int(p), "parent_is(" + d.states[d.parents[p]] + ")");
            }
            for (int s = 0; s < d.nS(); s++) chk(in.drv->is1(s), c[0].second == s, "is(" + d.states[s] + ")");
            for (int r : { int(c.size()), int(c.size()) + 1, 200, 255 }) {
                bool threw = false;
                try {
                    in.drv->is(r, 0, d.pairs[0].second);
                } catch (std::exception&) {
                    threw = true;
                }
                if (!threw) fail("is(region " + std::to_string(r) + ", ...) was accepted although there are only " + std::to_string(c.size()) + " regions");
            }
            string st;
            {
                InImpl on(true);
                st = in.drv->status();
                InImpl off(false);
                string copy(st.begin(), st.end());
                on.old = on.old; // keep `st` destruction inside
                const string k = string(in.m.d->name) + cfgStr(d, c);
                int n = 0;
                for (size_t pos = 0; pos < copy.size(); pos++)
                    if (copy[pos] == '[') {
                        size_t e = copy.find(']', pos);
                        if (e == string::npos || copy.substr(pos + 1, e - pos - 1) != std::to_string(n)) fail("status() does not number its entries from 0: " + copy);
                        n++;
                    }
                if (n != int(c.size())) fail("status() prints " + std::to_string(n) + " entries for " + std::to_string(c.size()) + " regions: " + copy);
                static std::map<string, string> s2c, c2s;
                const string ks = string(in.m.d->name) + copy;
                auto a = c2s.emplace(k, copy);
                if (a.first->second != copy) fail("status() prints different texts in the same configuration " + k + ": " + copy + " / " + a.first->second);
                auto b = s2c.emplace(ks, k);
                if (b.first->second != k) fail("status() prints the same text \"" + copy + "\" in " + k + " and " + b.first->second);
            }
        }
        if (g_strayCallback) fail("a query ran a user callback");
    }
    void nestedEvent(int j, int ev, std::uint64_t bits)
    {
        Op o;
        o.type = EV;
        o.inst = j;
        o.a = ev;
        o.bits = bits;
        stepEvent(o);
    }
    void stepEvent(const Op& op)
    {
        auto& in = inst[op.inst];
        if (!in.m.alive) return;
        const int payload = ++serial;
        Exec x;
        const auto before = in.m;
        Result r;
        std::function<void()> nested;
        if (op.nestAt >= 0) nested = [this, &op] { nestedEvent(op.nInst, op.nEv, op.nBits); };
        // the nested operation touches only other instances, so the order of
        // model and implementation does not matter
        bool diverged = false;
        try {
            Interp(in.m, op, x, opt.alt).event(op.a, payload);
        } catch (Diverged&) {
            diverged = true;
        }
        if (diverged || x.unspecified) {
            in.m = before;
            fail("@outside");
            return;
        }
        fire(op.inst, op, op.a, op.bits, op.horizon, op.thr, op.nestAt, nested, payload, op.rv, r);
        if (x.threw) {
            if (x.thrInRecall) altUsed = true;
            if (x.thrRegion >= 0) { // the region may be in the source or in the target
                vector<std::pair<int, int>> a;
                string why;
                if (actual(op.inst, a, why) && a[x.thrRegion] == x.thrSrc) {
                    in.m.cfg[x.thrRegion] = x.thrSrc;
                    in.m.hist = x.thrHist;
                }
            }
        }
        compare(op.inst, op, x, r, payload);
        checkCfg(op.inst, "after the event");
    }
    void step(const Op& op)
    {
        g_cnt.ops++;
        auto& in = inst[op.inst];
        g_badFree = false;
        switch (op.type) {
        case EV: stepEvent(op); break;
        case SET: {
            if (!in.m.alive) break;
            g_strayCallback = false;
            bool refused = false;
            foot::on(op.inst, [&] {
                InImpl on(true);
                try {
                    if (op.rv == 1)
                        in.drv->set2(op.b, op.c);
                    else if (op.rv == 2)
                        in.drv->set1(op.c);
                    else
                        in.drv->set(op.a, op.b, op.c);
                } catch (std::exception&) {
                    refused = true;
                }
            });
            if (refused != (op.a >= int(in.m.cfg.size())))
                fail("set() of region " + std::to_string(op.a) + (refused ? " threw an exception" : " was accepted although the region does not exist"));
            if (op.a < int(in.m.cfg.size())) in.m.cfg[op.a] = { op.b, op.c };
            if (g_strayCallback && (opt.flags & (F_EE | F_ACT | F_CONSTR))) fail("set() ran a user callback");
            checkCfg(op.inst, "after set()");
            break;
        }
        case SETDEP: {
            if (!in.m.alive) break;
            g_strayCallback = false;
            auto deps = depsFor(op.inst, op.a);
            foot::on(op.inst, [&] {
                InImpl on(true);
                in.drv->setDeps(deps);
            });
            in.m.depSet = op.a;
            in.m.depInst = -1;
            if (g_strayCallback && (opt.flags & (F_EE | F_ACT | F_DEP))) fail("set_dependency() ran a user callback");
            checkCfg(op.inst, "after set_dependency()");
            break;
        }
        case MOVE: {
            auto& from = inst[op.b];
            if (!from.m.alive || (op.a == MOVE_ONTO && !in.m.alive)) break;
            g_strayCallback = false;
            {
                InImpl on(true);
                if (op.a == MOVE_ONTO)
                    in.drv->assign(*from.drv);
                else
                    in.drv->move(op.a, opt.pattern, depsFor(op.inst, 7));
            }
            modelMove(in.m, from.m, op.inst, op.b);
            if (g_strayCallback && (opt.flags & (F_EE | F_ACT | F_CONSTR))) fail("moving the machine ran a user callback");
            checkCfg(op.inst, "after the move");
            break;
        }
        case QUERY:
            if (in.m.alive) queries(op.inst);
            break;
        case DESTROY:
            if (in.m.alive) destroy(op.inst);
            break;
        case CREATE:
            if (!in.m.alive) create(op.inst);
            break;
        }
        if (inst.size() > 1)
            for (size_t i = 0; i < inst.size(); i++)
                if (int(i) != op.inst) checkCfg(int(i), "of another machine");
        if ((opt.flags & F_Q) && in.m.alive && op.type != QUERY && err.empty()) queries(op.inst);
        checkLive("after the operation");
#ifdef VH_FOOT
        if (!foot::conflict.empty()) fail(foot::conflict);
#endif
        if (g_badFree && (opt.flags & F_LEAK)) fail("memory was released twice");
    }
    void finish()
    {
        for (size_t i = 0; i < inst.size(); i++)
            if (inst[i].m.alive) destroy(int(i));
        checkLive("after destruction");
#ifdef VH_FOOT
        if (!foot::conflict.empty()) fail(foot::conflict);
#endif
        if ((opt.flags & F_LEAK) && g_live != leak0)
            fail(std::to_string(g_live - leak0) + " allocations of the machine were not released");
        if (g_badFree && (opt.flags & F_LEAK)) fail("memory was released twice");
    }
};

// ---------------------------------------------------------------- running paths
static vector<Driver*> g_pool;
static const Path* g_curPath = nullptr;
static const Options* g_curOpt = nullptr;
static size_t g_curStep = 0;
static string g_traceFile;
static volatile long g_heart = 0;

static void writeTrace(const string& file, const Options& o, const Path& p, const string& why, size_t n)
{
    std::ofstream f(file);
    f << "# " << why << "\n";
    f << "machines";
    for (auto& m : o.machines) f << ' ' << m;
    f << "\nflags " << o.flags << "\npattern " << int(o.pattern) << "\nalt " << o.alt << "\nallregions " << int(g_completionAllRegions) << "\n";
    const size_t m = std::min(n, p.size());
    for (size_t i = 0; i < m; i++) {
        const Op& op = p[i];
        f << "op " << op.str() << "   #";
        const Desc& d = g_pool[op.inst]->desc();
        if (op.type == EV)
            f << " process_event(" << d.events[op.a] << ") guards=" << std::hex << op.bits << std::dec;
        else if (op.type == SET)
            f << " set(" << op.a << ", " << d.states[d.parents[op.b]] << ", " << d.states[op.c] << ")";
        f << "\n";
    }
}
static string runPath(const Options& o, const Path& p, size_t* failedAt = nullptr, vector<Model>* end = nullptr, bool finish = true, bool* altUsed = nullptr)
{
    g_curPath = &p;
    g_curOpt = &o;
    g_cnt.runs++;
    g_heart = g_heart + 1;
    string err;
    g_curStep = 0;
    {
        World w(o, g_pool);
        for (size_t i = 0; i < p.size() && w.err.empty(); i++) {
            g_curStep = i + 1;
            w.step(p[i]);
            g_heart = g_heart + 1;
        }
        if (end) {
            end->clear();
            for (auto& in : w.inst) end->push_back(in.m);
        }
        if (w.err.empty() && finish) w.finish();
        err = w.err;
        if (altUsed) *altUsed = w.altUsed;
    }
    if (failedAt) *failedAt = g_curStep;
    g_curPath = nullptr;
    static bool again = false; // what is allocated once and for all machines is not lost
    if (!again && err.find("allocations of the machine were not released") != string::npos) {
        again = true;
        err = runPath(o, p, failedAt, end, finish, altUsed);
        again = false;
    }
    return err;
}
// a violation only counts if no admissible resolution of unspecified choices explains it
static string runPathAlts(Options& o, const Path& p, size_t* failedAt = nullptr, vector<Model>* end = nullptr)
{
    bool alt = false;
    string e = runPath(o, p, failedAt, end, true, &alt);
    if (e.empty() || !alt) return e;
    for (int a = 0; a < 4; a++) {
        if (a == o.alt) continue;
        Options q = o;
        q.alt = a;
        string e2 = runPath(q, p, failedAt, end);
        if (e2.empty()) {
            o.alt = a;
            return e2;
        }
    }
    return runPath(o, p, failedAt, end);
}

static const Options* g_faultOpt = nullptr;
static string g_faultWhere; // a failure is being injected: what and where
static void onCrash(int sig)
{
    if (!g_faultWhere.empty() && !g_traceFile.empty()) {
        const string why = g_faultWhere + ": crash: signal " + strsignal(sig);
        g_faultWhere.clear();
        writeTrace(g_traceFile, *g_faultOpt, {}, why, 0);
        std::ofstream f(g_traceFile, std::ios::app);
        f << "faults 1\n";
    }
    if (g_curPath && !g_traceFile.empty()) {
        const Path* p = g_curPath;
        g_curPath = nullptr;
        writeTrace(g_traceFile, *g_curOpt, *p, string("crash: signal ") + strsignal(sig), g_curStep);
    }
    _exit(3);
}
static long g_lastHeart = -1;
static void onTimer(int)
{
    if (g_heart == g_lastHeart) {
        if (!g_faultWhere.empty()) onCrash(SIGALRM);
        if (g_curPath && !g_traceFile.empty()) writeTrace(g_traceFile, *g_curOpt, *g_curPath, "hang: an operation does not return", g_curStep);
        _exit(4);
    }
    g_lastHeart = g_heart;
}

// ---------------------------------------------------------------- exploration
struct Config {
    Options opt;
    int bfsK = 1;
    long bfsBudget = 20000;
    long dfsBudget = 20000;
    int dfsMax = 12;
    long walk = 0;
    long burst = 0;
    bool opSet = false, opDep = false, opQuery = false, opThrow = false, opNest = false, opLife = false, opMove = false;
    bool rvBoth = false, noFill = false;
    int setForms = 1;
    vector<int> horizons;
    int queueMax = 3;
    int maxVal = 64;
    bool faults = false;
    int firstInst = 0;
    double timeBudget = 60;
    string out;
};
static Config cfg;
static string g_err;
static Path g_errPath;
static Options g_errOpt;
static long g_bfsStates = 0, g_bfsEdges = 0, g_dfsLeaves = 0, g_dfsDepth = 0, g_walkSteps = 0, g_dfsNodes = 0;
static bool g_bfsDone = false;
static vector<string> g_samples;
static std::chrono::steady_clock::time_point g_t0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }

static string describe(const Path& p)
{
    string s;
    for (auto& op : p) {
        const Desc& d = g_pool[op.inst]->desc();
        string t;
        if (op.type == EV) {
            t = d.events[op.a] + (op.rv ? "&&" : "");
            if (op.bits) {
                std::ostringstream o;
                o << std::hex << op.bits;
                t += "[g=" + o.str() + "]";
            }
            if (op.thr >= 0) t += "!throw@" + std::to_string(op.thr);
            if (op.nestAt >= 0) t += "{at " + std::to_string(op.nestAt) + ": m" + std::to_string(op.nInst) + "." + g_pool[op.nInst]->desc().events[op.nEv] + "}";
        } else if (op.type == SET)
            t = "set(" + std::to_string(op.a) + "," + d.states[d.parents[op.b]] + "," + d.states[op.c] + ")";
        else if (op.type == MOVE)
            t = op.a == MOVE_ONTO ? "= move(m" + std::to_string(op.b) + ")" : "MOVE" + std::to_string(op.a);
        else
            t = string(opNames[op.type]) + (op.type == SETDEP ? std::to_string(op.a) : "");
        s += (s.empty() ? "" : " ; ") + (g_pool.size() > 1 ? "m" + std::to_string(op.inst) + "." : "") + t;
    }
    if (s.size() > 600) s = s.substr(0, 600) + "...";
    return s;
}

// ---- differential transcripts (two builds of the same machine, no model) ----
static string transcript(Driver* drv, const Path& p)
{
    std::ostringstream t;
    const Desc& d = drv->desc();
    std::map<const void*, int> ids;
    const void* evAddr = nullptr;
    auto id = [&](const void* a) -> string {
        if (!a) return "0";
        if (a == evAddr) return "ev";
        auto it = ids.emplace(a, int(ids.size()) + 1).first;
        return std::to_string(it->second);
    };
    auto obs = [&](const Obs& o, bool noEvAddr) {
        t << ' ' << int(o.kind) << '#' << o.id << '(' << o.ev.type << ':' << o.ev.payload << ':' << o.ev.touched << ':' << o.ev.ok << ':'
          << (o.ev.addr == evAddr && !noEvAddr) << ' ' << o.src.type << ':' << o.src.n << ' ' << o.tgt.type << ':' << o.tgt.n;
        if (o.kind != FACTORY && o.kind != ACTION && o.src.type >= 0 && !d.ndc[o.src.type]) t << ' ' << id(o.src.addr);
        if (o.tgt.type >= 0 && !d.ndc[o.tgt.type]) t << ' ' << id(o.tgt.addr);
        for (int k = 0; k < o.ndeps; k++) t << " d" << int(static_cast<const Dep*>(o.deps[k]) - &g_depPool[0]);
        t << ")";
    };
    vector<vector<Dep*>> deps;
    for (int set = 0; set < 4; set++) {
        vector<Dep*> v;
        for (int k = 0; k < d.ndeps; k++) v.push_back(&g_depPool[set * 8 + k]);
        deps.push_back(v);
    }
    g_strayCallback = false;
    g_pattern = 0xA5;
    {
        InImpl on(true);
        drv->create(0xA5, deps[0]);
    }
    auto conf = [&] {
        for (int r = 0; r < int(d.init.size()); r++) {
            t << " @";
            for (auto& pr : d.pairs)
                if (drv->is(r, pr.first, pr.second)) t << pr.first << '/' << pr.second;
        }
        t << " | " << g_strayCallback << "\n";
    };
    conf();
    int serial = 0;
    for (auto& op : p) {
        g_heart = g_heart + 1;
        if (op.type == EV) {
            Result r;
            Ctx c;
            c.res = &r;
            c.bits = op.bits;
            c.horizon = op.horizon;
            c.thr = op.thr;
            g_ctx = &c;
            std::ostringstream capture;
            auto* old = std::cout.rdbuf(capture.rdbuf());
            try {
                InImpl on(true);
                drv->fire(op.a, ++serial, op.rv != 0, &evAddr, r.fr);
            } catch (Boom& b) {
                t << " boom" << b.id;
            } catch (BoomStd& b) {
                t << " boom" << b.id;
            } catch (Runaway&) {
                t << " runaway";
            } catch (...) {
                t << " exc";
            }
            std::cout.rdbuf(old);
            g_ctx = nullptr;
            r.evAddr = evAddr;
            t << op.a << " -> " << r.fr.ret << ' ' << r.fr.touched << (r.fr.same || op.rv) << World::normLog(capture.str()) << " G";
            for (auto& g : r.guards) obs(g, false);
            t << " C";
            for (auto& o : r.log) obs(o, o.kind == FACTORY);
        } else if (op.type == SET) {
            InImpl on(true);
            if (op.rv == 1) drv->set2(op.b, op.c);
            else if (op.rv == 2) drv->set1(op.c);
            else drv->set(op.a, op.b, op.c);
            t << "set";
        } else if (op.type == SETDEP) {
            InImpl on(true);
            drv->setDeps(deps[op.a]);
            t << "dep";
        } else if (op.type == QUERY) {
            string s;
            {
                InImpl on(true);
                s = drv->status();
            }
            t << "status " << s.c_str();
        }
        conf();
    }
    {
        InImpl on(true);
        drv->destroy();
    }
    return t.str();
}
static string runDiff(const Options& o, const Path& p)
{
    g_curPath = &p;
    g_curOpt = &o;
    g_curStep = p.size();
    g_cnt.runs++;
    g_cnt.ops += long(p.size());
    g_cnt.cmp++;
    const string a = transcript(g_pool[0], p), b = transcript(g_pool[1], p);
    g_curPath = nullptr;
    if (a == b) return "";
    std::istringstream sa(a), sb(b);
    string la, lb;
    int n = 0;
    while (true) {
        const bool ga = bool(std::getline(sa, la)), gb = bool(std::getline(sb, lb));
        if (!ga && !gb) break;
        if (la != lb || ga != gb) return "the two builds differ after operation " + std::to_string(n) + ": \"" + la + "\" / \"" + lb + "\"";
        n++;
    }
    return "the two builds differ";
}

// Which later regions run their completion transitions is decided by finding C09
// (known_findings.txt): operations for which the two readings differ are left out.
static bool readingsAgree(const Model& m0, const Op& op, const Model& m, const Exec& x)
{
    Model m2 = m0;
    Exec x2;
    const bool keep = g_completionAllRegions;
    g_completionAllRegions = !keep;
    bool ok = true;
    try {
        Interp(m2, op, x2, cfg.opt.alt).event(op.a, 1);
    } catch (Diverged&) {
        ok = false;
    }
    g_completionAllRegions = keep;
    if (!ok || m2.key() != m.key() || x2.log.size() != x.log.size() || x2.ret != x.ret || x2.consulted != x.consulted) return false;
    for (size_t k = 0; k < x.log.size(); k++)
        if (x.log[k].kind != x2.log[k].kind || x.log[k].id != x2.log[k].id) return false;
    return true;
}
// ---- successor operations -----------------------------------------------------
static void eventOps(const vector<Model>& ms, int inst, int ev, int queueMax, bool full, int parity, const std::function<void(const Op&)>& cb)
{
    const Model& m0 = ms[inst];
    const Desc& d = *m0.d;
    vector<int> hs = cfg.horizons;
    hs.insert(hs.begin(), -1);
    const std::uint64_t all = d.nguards >= 64 ? ~0ULL : ((1ULL << d.nguards) - 1);
    for (int h : hs) {
        vector<std::pair<int, bool>> dec;
        int count = 0;
        while (true) {
            std::uint64_t bits = 0;
            for (auto& p : dec)
                if (p.second) bits |= 1ULL << p.first;
            Op op;
            op.type = EV;
            op.inst = inst;
            op.a = ev;
            op.bits = bits;
            op.horizon = h;
            Model m = m0;
            Exec x;
            bool ok = true;
            try {
                Interp(m, op, x, 0).event(ev, 1);
            } catch (Diverged&) {
                ok = false;
            }
            for (size_t k = dec.size(); k < x.order.size(); k++) dec.push_back({ x.order[k], false });
            if (x.unspecified) ok = false;
            if (ok && m.cfg.size() > 1 && d.anonymous && !readingsAgree(m0, op, m, x)) ok = false;
            if (int(m.queue.size()) > queueMax) ok = false;
            // a horizon at or beyond the number of callbacks changes nothing
            if (h >= 0 && int(x.log.size()) < h) ok = false;
            if (ok) {
                const std::uint64_t fill = all & ~x.consulted;
                if (full) {
                    cb(op);
                    Op o2 = op;
                    o2.rv = 1;
                    if (fill) o2.bits |= fill;
                    if (fill || cfg.rvBoth) cb(o2);
                    if (fill && cfg.rvBoth) {
                        o2.rv = 0;
                        cb(o2);
                        o2 = op;
                        o2.rv = 1;
                        cb(o2);
                    }
                } else {
                    Op o2 = op;
                    if (parity & 1) {
                        o2.bits |= fill;
                        o2.rv = 1;
                    }
                    cb(o2);
                }
                if (cfg.opThrow && h < 0) {
                    for (int k = 0; k < int(x.log.size()); k++) {
                        Op o2 = op;
                        o2.thr = k;
                        cb(o2);
                        o2.thr += THR_KIND;
                        cb(o2);
                    }
                    for (int g : x.order) {
                        Op o2 = op;
                        o2.thr = 1000 + g;
                        cb(o2);
                        o2.thr += THR_KIND;
                        cb(o2);
                    }
                }
                if (cfg.opNest && h < 0)
                    for (int j = 0; j < int(ms.size()); j++)
                        if (j != inst && ms[j].alive)
                            for (int k = 0; k < int(x.log.size()); k++)
                                for (int e2 = 0; e2 < ms[j].d->nE(); e2++) {
                                    if (ms[j].d->noEvent[e2]) continue;
                                    Op o2 = op;
                                    o2.nestAt = k;
                                    o2.nInst = j;
                                    o2.nEv = e2;
                                    o2.nBits = ((k + e2) & 1) ? ~0ULL : 0;
                                    cb(o2);
                                }
            }
            if (++count >= cfg.maxVal) break;
            while (!dec.empty() && dec.back().second) dec.pop_back();
            if (dec.empty()) break;
            dec.back().second = true;
        }
    }
}
static void successors(const vector<Model>& ms, int queueMax, bool full, int parity, const std::function<void(const Op&)>& cb)
{
    const int n = cfg.opt.diff ? 1 : int(ms.size());
    for (int i = 0; i < n; i++) {
        const Model& m = ms[i];
        const Desc& d = *m.d;
        if (!m.alive) {
            if (cfg.opLife) {
                Op o;
                o.type = CREATE;
                o.inst = i;
                cb(o);
            }
            continue;
        }
        for (int e = 0; e < d.nE(); e++)
            if (!d.noEvent[e]) eventOps(ms, i, e, queueMax, full, parity + e, cb);
        if (cfg.opSet)
            for (int r = 0; r < int(m.cfg.size()); r++)
                for (auto& pr : d.pairs) {
                    if (d.ndc[pr.second] && !m.exists[pr.second]) continue;
                    Op o;
                    o.type = SET;
                    o.inst = i;
                    o.a = r;
                    o.b = pr.first;
                    o.c = pr.second;
                    cb(o);
                    if (cfg.setForms > 1 && r == 0 && full) {
                        o.rv = 1;
                        cb(o);
                        if (pr.first == 0) {
                            o.rv = 2;
                            cb(o);
                        }
                    }
                }
        if (cfg.opSet && cfg.setForms > 1 && full)
            for (int r : { int(m.cfg.size()), 255 }) { // regions that do not exist
                Op o;
                o.type = SET;
                o.inst = i;
                o.a = r;
                o.b = d.pairs.back().first;
                o.c = d.pairs.back().second;
                if (!d.ndc[o.c]) cb(o);
            }
        if (cfg.opDep)
            for (int s = 0; s < 3; s++) {
                Op o;
                o.type = SETDEP;
                o.inst = i;
                o.a = s;
                if (s != m.depSet || full) cb(o);
            }
        if (cfg.opMove && !cfg.opt.diff) {
            Op o;
            o.type = MOVE;
            o.inst = o.b = i;
            for (o.a = 0; o.a < MOVE_ONTO; o.a++)
                if (full || o.a == parity % MOVE_ONTO) cb(o);
            o.a = MOVE_ONTO;
            for (o.b = 0; o.b < n; o.b++)
                if (o.b != i && ms[o.b].alive && ms[o.b].d == m.d) cb(o);
        }
        if (cfg.opQuery) {
            Op o;
            o.type = QUERY;
            o.inst = i;
            cb(o);
        }
        if (cfg.opLife) {
            Op o;
            o.type = DESTROY;
            o.inst = i;
            cb(o);
        }
    }
}
static bool g_stepThrewInRecall = false;
static bool modelStep(vector<Model>& ms, const Op& op)
{
    Model& m = ms[op.inst];
    switch (op.type) {
    case EV: {
        Exec x;
        try {
            Interp(m, op, x, cfg.opt.alt).event(op.a, 1);
        } catch (Diverged&) {
            return false;
        }
        if (x.unspecified) return false;
        g_stepThrewInRecall = x.thrInRecall;
        if (op.nestAt >= 0) {
            Op o;
            o.inst = op.nInst;
            o.a = op.nEv;
            o.bits = op.nBits;
            return modelStep(ms, o);
        }
        return true;
    }
    case SET:
        if (op.a < int(m.cfg.size())) m.cfg[op.a] = { op.b, op.c };
        return true;
    case SETDEP: m.depSet = op.a; m.depInst = -1; return true;
    case MOVE: modelMove(ms[op.inst], ms[op.b], op.inst, op.b); return true;
    case DESTROY: m.alive = false; return true;
    case CREATE: {
        const Desc& d = *m.d;
        m.init(d);
        return true;
    }
    }
    return true;
}
static bool violation(const string& e, const Options& o, const Path& p, size_t n)
{
    if (e.empty() || e[0] == '@') return false;
    g_err = e;
    g_errPath = p;
    if (n < g_errPath.size()) g_errPath.resize(n);
    g_errOpt = o;
    return true;
}
static bool execute(const Path& p, vector<Model>* end, bool& prune)
{
    Options o = cfg.opt;
    o.pattern = cfg.noFill ? -1 : (g_cnt.runs & 1) ? 0x00 : (g_cnt.runs & 2) ? 0xFF : 0xA5;
    prune = false;
    if (cfg.opt.diff) {
        const string e = runDiff(o, p);
        return !violation(e, o, p, p.size());
    }
    size_t at = 0;
    const string e = runPathAlts(o, p, &at, end);
    if (!e.empty() && e[0] == '@') prune = true;
    return !violation(e, o, p, at);
}
static vector<Model> initialModels()
{
    vector<Model> ms(g_pool.size());
    for (size_t i = 0; i < ms.size(); i++) ms[i].init(g_pool[i]->desc());
    return ms;
}
static string keyOf(const vector<Model>& ms, const Path& p, int k)
{
    string s;
    for (size_t i = 0; i < (cfg.opt.diff ? 1 : ms.size()); i++) s += ms[i].key() + ";";
    for (int i = std::max(0, int(p.size()) - k); i < int(p.size()); i++) s += p[i].str() + ";";
    return s;
}
static bool bfs()
{
    struct Node {
        Path p;
        vector<Model> ms;
    };
    std::deque<Node> q;
    std::unordered_set<string> seen;
    bool prune = false;
    vector<Model> ms0 = initialModels();
    if (!execute({}, cfg.opt.diff ? nullptr : &ms0, prune)) return false;
    if (prune) return true;
    q.push_back({ {}, ms0 });
    seen.insert(keyOf(ms0, {}, cfg.bfsK));
    g_bfsStates = 1;
    while (!q.empty()) {
        Node n = std::move(q.front());
        q.pop_front();
        bool bad = false, over = false;
        successors(n.ms, cfg.queueMax, true, 0, [&](const Op& op) {
            if (bad || over) return;
            if (g_bfsEdges >= cfg.bfsBudget || elapsed() > cfg.timeBudget * 0.5) {
                over = true;
                return;
            }
            Path p = n.p;
            p.push_back(op);
            vector<Model> ms = n.ms;
            bool pr = false;
            if (cfg.opt.diff) {
                if (!modelStep(ms, op)) return;
            }
            g_bfsEdges++;
            if (!execute(p, cfg.opt.diff ? nullptr : &ms, pr)) {
                bad = true;
                return;
            }
            if (g_samples.size() < 3 && p.size() >= 3 && g_bfsEdges % 37 == 0) g_samples.push_back(describe(p));
            if (pr || op.thr >= THR_KIND) return; // (the other kind of exception leads to the same state)
            if (seen.insert(keyOf(ms, p, cfg.bfsK)).second) {
                g_bfsStates++;
                q.push_back({ std::move(p), std::move(ms) });
            }
        });
        if (bad) return false;
        if (over) return true;
    }
    g_bfsDone = true;
    return true;
}
static long countLeaves(const vector<Model>& ms, int depth, int parity, long limit)
{
    if (depth == 0) return 1;
    long n = 0;
    successors(ms, cfg.queueMax + 2, false, parity, [&](const Op& op) {
        if (n > limit) return;
        vector<Model> m2 = ms;
        if (depth > 1 && !modelStep(m2, op)) return;
        n += countLeaves(m2, depth - 1, parity + 1, limit - n);
    });
    return n;
}
static bool dfsRun(const vector<Model>& ms, Path& p, int depth, int parity)
{
    if (depth == 0) {
        g_dfsLeaves++;
        bool prune;
        if (g_samples.size() < 6 && g_dfsLeaves % 211 == 7) g_samples.push_back(describe(p));
        return execute(p, nullptr, prune);
    }
    bool ok = true, any = false;
    successors(ms, cfg.queueMax + 2, false, parity, [&](const Op& op) {
        if (!ok || elapsed() > cfg.timeBudget) return;
        vector<Model> m2 = ms;
        if (!modelStep(m2, op)) return;
        any = true;
        g_dfsNodes++;
        p.push_back(op);
        ok = dfsRun(m2, p, depth - 1, parity + 1);
        p.pop_back();
    });
    (void)any;
    return ok;
}
static bool dfs()
{
    int depth = 0;
    const auto ms = initialModels();
    for (int dpt = 1; dpt <= cfg.dfsMax; dpt++) {
        if (countLeaves(ms, dpt, 0, cfg.dfsBudget + 1) > cfg.dfsBudget) break;
        depth = dpt;
        if (elapsed() > cfg.timeBudget * 0.6) break;
    }
    Path p;
    g_dfsDepth = depth;
    return dfsRun(ms, p, depth, 0);
}
// one long history on one machine: every (state, operation) edge again and again,
// `burst`: each chosen operation is repeated up to 300 times
static bool walk(long steps, bool burst)
{
    std::unordered_map<string, vector<std::pair<Op, long>>> table;
    Path p;
    Options o = cfg.opt;
    g_curPath = &p;
    g_curOpt = &o;
    string err;
    const int qmax = burst ? 300 : cfg.queueMax + 6;
    {
        World w(o, g_pool);
        auto models = [&] {
            vector<Model> ms;
            for (auto& i : w.inst) ms.push_back(i.m);
            return ms;
        };
        long n = 0;
        while (n < steps && w.err.empty() && elapsed() < cfg.timeBudget) {
            const auto ms = models();
            string k;
            for (auto& m : ms) k += m.key().substr(0, 40) + ";";
            auto it = table.find(k);
            if (it == table.end()) {
                vector<std::pair<Op, long>> ops;
                successors(ms, qmax, true, 0, [&](const Op& op) {
                    if (op.type != DESTROY) ops.push_back({ op, 0 });
                });
                it = table.emplace(k, ops).first;
            }
            auto& ops = it->second;
            if (ops.empty()) break;
            size_t best = 0;
            for (size_t i = 1; i < ops.size(); i++)
                if (ops[i].second < ops[best].second) best = i;
            ops[best].second++;
            const Op op = ops[best].first;
            if (op.thr >= 0) {
                // what happens to the event whose recall throws is not specified: not in a long history
                auto m2 = models();
                g_stepThrewInRecall = false;
                if (!modelStep(m2, op) || g_stepThrewInRecall || int(m2[op.inst].queue.size()) > qmax) {
                    n++;
                    continue;
                }
            }
            const int reps = burst ? 300 : 1;
            for (int r = 0; r < reps && n < steps && w.err.empty(); r++) {
                if (r > 0 || burst) {
                    auto m2 = models();
                    g_stepThrewInRecall = false;
                    bool ok = modelStep(m2, op) && int(m2[op.inst].queue.size()) <= qmax && !g_stepThrewInRecall;
                    if (!ok) break;
                }
                p.push_back(op);
                g_curStep = p.size();
                g_heart = g_heart + 1;
                w.step(op);
                n++;
                g_walkSteps++;
            }
        }
        if (w.err.empty()) w.finish();
        err = w.err;
    }
    g_curPath = nullptr;
    g_cnt.runs++;
    return !violation(err, o, p, p.size());
}

static string jsonStr(const string& s)
{
    string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') o += '\\', o += c;
        else if (c == '\n') o += "\\n";
        else if (static_cast<unsigned char>(c) < 32) o += ' ';
        else o += c;
    }
    return o + "\"";
}
#ifndef VH_FOOT
// Failures from outside, at every point where one can happen: the n-th construction of a
// state or the n-th allocation during the construction of the machine, the n-th allocation
// or the n-th copy of an event while an event sequence is processed.  Whatever the failure
// leaves behind, destroying what exists releases everything exactly once.
static long g_faultRuns = 0;
static bool faults()
{
    static const char* const what[] = { "state constructor", "allocation", "event copy" };
    vector<Dep*> deps;
    for (int k = 0; k < 8; k++) deps.push_back(&g_depPool[k]);
    g_faultOpt = &cfg.opt;
    for (auto* drv : g_pool) {
        const Desc& d = drv->desc();
        const int nE = d.nE();
        string where;
        int kind = 0, n = 0;
        auto leaked = [&](long live, const vector<int>& states, long events) {
            g_heart++;
            g_faultRuns++;
            string e;
            if (g_live != live) e = std::to_string(g_live - live) + " allocations are not released";
            else if (liveEvents != events) e = std::to_string(liveEvents - events) + " event copies are not destroyed";
            else if (!std::equal(states.begin(), states.end(), liveStates)) e = "state objects are not destroyed exactly once";
            else if (g_badFree) e = "memory was released twice";
            if (e.empty()) return false;
            g_err = d.name + ": after " + what[kind] + " " + std::to_string(n) + " failed " + where + ": " + e;
            g_errOpt = cfg.opt;
            return true;
        };
        auto arm = [&](int v) { (kind == 0 ? ctorFault : kind == 1 ? g_allocFault : copyFault) = v; };
        auto armed = [&] { return (kind == 0 ? ctorFault : kind == 1 ? g_allocFault : copyFault) > 0; };
        const auto live = g_live;
        const auto events = liveEvents;
        const vector<int> states(liveStates, liveStates + 1024);
        auto create = [&] { // returns whether the machine exists
            try {
                InImpl on(true);
                drv->create(cfg.opt.pattern, deps);
                return true;
            } catch (CtorFault&) {
            } catch (std::bad_alloc&) {
            }
            drv->abandon();
            return false;
        };
        auto destroy = [&] {
            InImpl on(true);
            drv->destroy();
        };
        where = "while the machine was constructed";
        for (kind = 0; kind < 2; kind++)
            for (n = 1; n < 3000; n++) {
                g_faultWhere = d.name + ": " + what[kind] + " " + std::to_string(n) + " fails " + where;
                arm(n);
                const bool ok = create();
                const bool done = armed();
                arm(0);
                if (ok) destroy();
                if (leaked(live, states, events)) return false;
                if (done) break;
            }
        vector<int> seq;
        long budget = 4000;
        for (int len = 1; len <= 3; len++) {
            long total = 1;
            for (int k = 0; k < len; k++) total *= nE;
            for (long code = 0; code < total && budget > 0; code++) {
                seq.clear();
                bool ok = true;
                for (long c = code, k = 0; k < len; k++, c /= nE) seq.push_back(int(c % nE));
                for (int e : seq) ok = ok && !d.noEvent[e];
                if (!ok) continue;
                for (std::uint64_t bits : { ~std::uint64_t(0), std::uint64_t(0) })
                    for (kind = 1; kind < 3; kind++)
                        for (n = 1; n < 400; n++, budget--) {
                            if (!create()) return true;
                            Result r;
                            r.log.reserve(64);
                            Ctx c;
                            c.res = &r;
                            c.bits = bits;
                            c.horizon = 20;
                            g_ctx = &c;
                            FireResult fr;
                            const void* addr = nullptr;
                            where = "while the events";
                            for (int e : seq) where += ' ' + d.events[e];
                            where += " were processed";
                            g_faultWhere = d.name + ": " + what[kind] + " " + std::to_string(n) + " fails " + where;
                            arm(n);
                            bool stop = false;
                            for (size_t k = 0; k < seq.size() && !stop; k++) {
                                stop = true;
                                try {
                                    InImpl on(true);
                                    drv->fire(seq[k], int(k) + 1, false, &addr, fr);
                                    stop = false;
                                } catch (CtorFault&) {
                                } catch (std::bad_alloc&) {
                                } catch (Runaway&) {
                                }
                                // a state that create_state failed to create does not exist: do not go on
                                stop = stop && std::find(d.ndc.begin(), d.ndc.end(), true) != d.ndc.end();
                            }
                            const bool done = armed();
                            arm(0);
                            g_ctx = nullptr;
                            destroy();
                            if (leaked(live, states, events)) return false;
                            if (done) break;
                        }
            }
        }
    }
    g_faultWhere.clear();
    return true;
}
#endif

static int replay(const string& file)
{
    std::ifstream f(file);
    string line;
    Options o;
    Path p;
    bool diff = cfg.opt.diff, withFaults = false;
    while (std::getline(f, line)) {
        auto h = line.find('#');
        if (h != string::npos) line = line.substr(0, h);
        std::istringstream i(line);
        string w;
        if (!(i >> w)) continue;
        if (w == "machines") {
            while (i >> w) o.machines.push_back(w);
        } else if (w == "flags")
            i >> o.flags;
        else if (w == "pattern")
            i >> o.pattern;
        else if (w == "alt")
            i >> o.alt;
        else if (w == "allregions")
            i >> g_completionAllRegions;
        else if (w == "diff")
            i >> diff;
        else if (w == "faults")
            i >> withFaults;
        else if (w == "op")
            p.push_back(Op::parse(i));
    }
    for (auto& m : o.machines) {
        Driver* d = nullptr;
        for (int k = 0; k < registrySize; k++)
            if (m == registry[k].name) d = registry[k].make();
        if (!d) {
            std::printf("machine %s is not linked in\n", m.c_str());
            return 2;
        }
        g_pool.push_back(d);
    }
    string e;
#ifndef VH_FOOT
    if (withFaults) {
        cfg.opt = o;
        faults();
        std::printf("%s\n", g_err.empty() ? "no violation" : g_err.c_str());
        return g_err.empty() ? 0 : 1;
    }
#endif
    (void)withFaults;
    if (diff) {
        e = runDiff(o, p);
        for (auto& x : g_pool) std::printf("%s\n", transcript(x, p).c_str());
    } else {
        e = runPathAlts(o, p);
    }
    std::printf("%s\n", e.empty() ? "no violation" : e.c_str());
    return e.empty() || e[0] == '@' ? 0 : 1;
}

int main(int argc, char** argv)
{
#ifdef VH_FOOT
    foot::setup(&g_impl);
#endif
    g_t0 = std::chrono::steady_clock::now();
    g_depPool.resize(8 * 8 * 8);
    for (size_t i = 0; i < g_depPool.size(); i++) g_depPool[i].id = int(i);
    string replayFile;
    for (int i = 1; i < argc; i++) {
        const string a = argv[i];
        auto val = [&] { return string(argv[++i]); };
        if (a == "--machine") cfg.opt.machines.push_back(val());
        else if (a == "--flags") {
            std::istringstream s(val());
            string f;
            while (std::getline(s, f, ','))
                for (auto& n : flagNames)
                    if (f == n.first) cfg.opt.flags |= n.second;
        } else if (a == "--bfs-k") cfg.bfsK = std::stoi(val());
        else if (a == "--bfs") cfg.bfsBudget = std::stol(val());
        else if (a == "--dfs") cfg.dfsBudget = std::stol(val());
        else if (a == "--dfs-max") cfg.dfsMax = std::stoi(val());
        else if (a == "--walk") cfg.walk = std::stol(val());
        else if (a == "--faults") cfg.faults = true;
        else if (a == "--burst") cfg.burst = std::stol(val());
        else if (a == "--queue") cfg.queueMax = std::stoi(val());
        else if (a == "--max-val") cfg.maxVal = std::stoi(val());
        else if (a == "--time") cfg.timeBudget = std::stod(val());
        else if (a == "--horizons") {
            std::istringstream s(val());
            string f;
            while (std::getline(s, f, ',')) cfg.horizons.push_back(std::stoi(f));
        } else if (a == "--ops") {
            std::istringstream s(val());
            string f;
            while (std::getline(s, f, ',')) {
                if (f == "set") cfg.opSet = true;
                if (f == "setforms") cfg.opSet = true, cfg.setForms = 3;
                if (f == "dep") cfg.opDep = true;
                if (f == "query") cfg.opQuery = true;
                if (f == "throw") cfg.opThrow = true;
                if (f == "nest") cfg.opNest = true;
                if (f == "life") cfg.opLife = true;
                if (f == "move") cfg.opMove = true;
            }
        } else if (a == "--rv-both") cfg.rvBoth = true;
        else if (a == "--all-regions") g_completionAllRegions = true;
        else if (a == "--nofill") cfg.noFill = true;
        else if (a == "--diff") cfg.opt.diff = true;
        else if (a == "--out") cfg.out = val();
        else if (a == "--trace") g_traceFile = val();
        else if (a == "--replay") replayFile = val();
        else {
            std::fprintf(stderr, "unknown option %s\n", a.c_str());
            return 2;
        }
    }
#if !VH_ASAN
    static char altStack[1 << 16];
    stack_t ss {};
    ss.ss_sp = altStack;
    ss.ss_size = sizeof altStack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_handler = onCrash;
    sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) sigaction(s, &sa, nullptr);
#endif
    std::signal(SIGVTALRM, onTimer);
    itimerval tv {};
    tv.it_interval.tv_sec = 10;
    tv.it_value.tv_sec = 10;
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);

    if (!replayFile.empty()) return replay(replayFile);

    for (auto& m : cfg.opt.machines) {
        Driver* d = nullptr;
        for (int k = 0; k < registrySize; k++)
            if (m == registry[k].name) d = registry[k].make();
        if (!d) {
            std::fprintf(stderr, "machine %s is not linked in\n", m.c_str());
            return 2;
        }
        g_pool.push_back(d);
    }
    bool ok = true, withFaults = false;
#ifndef VH_FOOT
    if (cfg.faults) withFaults = !(ok = faults());
#endif
    if (ok && cfg.bfsBudget > 0) ok = bfs();
    if (ok && cfg.dfsBudget > 0) ok = dfs();
    if (ok && cfg.walk > 0 && !cfg.opt.diff) ok = walk(cfg.walk, false);
    if (ok && cfg.burst > 0 && !cfg.opt.diff) ok = walk(cfg.burst, true);
    if (!ok && !g_traceFile.empty()) {
        writeTrace(g_traceFile, g_errOpt, g_errPath, g_err, g_errPath.size());
        if (withFaults) {
            std::ofstream f(g_traceFile, std::ios::app);
            f << "faults 1\n";
        }
        if (cfg.opt.diff) {
            std::ofstream f(g_traceFile, std::ios::app);
            f << "diff 1\n";
        }
    }
    std::ofstream f(cfg.out.empty() ? string("/dev/stdout") : cfg.out);
    f << "{\"ok\":" << (ok ? "true" : "false") << ",\"error\":" << jsonStr(g_err) << ",\"states\":" << g_bfsStates << ",\"edges\":" << g_bfsEdges
      << ",\"bfs_complete\":" << (g_bfsDone ? "true" : "false") << ",\"dfs_depth\":" << g_dfsDepth << ",\"dfs_leaves\":" << g_dfsLeaves
      << ",\"dfs_nodes\":" << g_dfsNodes << ",\"walk\":" << g_walkSteps << ",\"runs\":" << g_cnt.runs << ",\"ops\":" << g_cnt.ops << ",\"compared\":" << g_cnt.cmp
      << ",\"callbacks\":" << g_cnt.callbacks << ",\"guard_calls\":" << g_cnt.guardCalls << ",\"desync\":" << g_cnt.desync
#ifdef VH_FOOT
      << ",\"accesses\":" << foot::accesses << ",\"tracked_accesses\":" << foot::tracked
#endif
#ifndef VH_FOOT
      << ",\"faults\":" << g_faultRuns
#endif
      << ",\"seconds\":" << elapsed()
      << ",\"samples\":[";
    for (size_t i = 0; i < g_samples.size(); i++) f << (i ? "," : "") << jsonStr(g_samples[i]);
    f << "]}\n";
    f.flush();
    return ok ? 0 : 1;
}
