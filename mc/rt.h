// Runtime interface between generated machines (one TU each, real hsm headers)
// and the explorer (explore.cpp).  Kept light: it is included in every machine TU.
#pragma once
#include <charconv>
#include <cstdint>
#include <memory>
#include <new>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

namespace rt {

enum Kind : std::uint8_t { GUARD, ACTION, ENTRY, EXIT, UNEXP, FACTORY };

struct StRef {
    const void* addr;
    int type; // state index, -1: absent argument, -2: null object
    int n; // user data before the call
};
struct EvRef {
    const void* addr;
    int type; // event index, -1: anonymous event
    int payload;
    int touched; // how many callbacks wrote to it before
    bool ok; // redundant payload copies agree
};

bool guardCall(int id, EvRef ev, StRef src, StRef tgt, const void* const* deps, int ndeps);
// returns after logging; may throw (injected) and may run nested operations
void call(Kind kind, int id, EvRef ev, StRef src, StRef tgt, const void* const* deps, int ndeps);

extern int liveStates[1024]; // constructed - destroyed, per state index
extern long eventCopies;
extern long liveEvents;
extern int ndcSerial;
extern int ctorFault; // > 0: the n-th construction of a state throws
extern int copyFault; // > 0: the n-th copy of an event throws

// bookkeeping of the harness, not an access of the library
#ifdef VH_FOOT
__attribute__((no_sanitize_thread, noinline)) inline void count(int& n, int k) { n += k; }
__attribute__((no_sanitize_thread, noinline)) inline void count(long& n, int k) { n += k; }
#else
inline void count(int& n, int k) { n += k; }
inline void count(long& n, int k) { n += k; }
#endif

struct CtorFault {
};

// what a callback throws: a plain struct, or a class derived from std::exception
struct Boom {
    int id;
};
enum { THR_KIND = 100000 };

struct Dep {
    int id;
};

#ifdef VH_FOOT
__attribute__((no_sanitize_thread, noinline)) inline void mayFault() { }
inline void mayFaultCopy() { }
#else
inline void mayFaultCopy()
{
    if (copyFault > 0 && --copyFault == 0) throw CtorFault {};
}
inline void mayFault()
{
    if (ctorFault > 0 && --ctorFault == 0) throw CtorFault {};
}
#endif

// ---- state objects ---------------------------------------------------------
template <int I> struct StateObj {
    static constexpr int vh_state = I;
    int n = 0;
    int guardWord = 0x5eed0000 + I;
    StateObj() { mayFault(); count(liveStates[I], 1); }
    StateObj(const StateObj& o) : n(o.n) { count(liveStates[I], 1); }
    StateObj& operator=(const StateObj&) = default;
    ~StateObj() { count(liveStates[I], -1); guardWord = 0; }
};
struct Poly { // makes a state polymorphic
    long pad = 0x1234;
    virtual ~Poly() = default;
};
// no default constructor: must be created by create_state
template <int I> struct NdcObj {
    static constexpr int vh_state = I;
    int n;
    int guardWord = 0x5eed0000 + I;
    explicit NdcObj(int v) : n(v) { mayFault(); count(liveStates[I], 1); }
    NdcObj(const NdcObj& o) : n(o.n) { count(liveStates[I], 1); }
    ~NdcObj() { count(liveStates[I], -1); guardWord = 0; }
};

// ---- events ----------------------------------------------------------------
template <int I> struct Ev { // trivially copyable payload
    static constexpr int vh_event = I;
    int payload = 0;
    int touched = 0;
    int check = 0;
    Ev() { count(liveEvents, 1); }
    explicit Ev(int p) : payload(p), check(~p) { count(liveEvents, 1); }
    Ev(const Ev& o) : payload(o.payload), touched(o.touched), check(o.check) { mayFaultCopy(); count(eventCopies, 1); count(liveEvents, 1); }
    Ev(Ev&& o) noexcept : payload(o.payload), touched(o.touched), check(o.check) { o.check = o.payload; count(liveEvents, 1); }
    Ev& operator=(const Ev&) = default;
    ~Ev() { count(liveEvents, -1); check = 0; }
    bool ok() const { return check == ~payload; }
};
template <int I> struct HeavyEv { // owns memory
    static constexpr int vh_event = I;
    int payload = 0;
    int touched = 0;
    std::string text;
    static std::string mk(int p) { return "payload of the event number " + std::to_string(p); }
    HeavyEv() { count(liveEvents, 1); }
    explicit HeavyEv(int p) : payload(p), text(mk(p)) { count(liveEvents, 1); }
    HeavyEv(const HeavyEv& o) : payload(o.payload), touched(o.touched), text(o.text) { mayFaultCopy(); count(eventCopies, 1); count(liveEvents, 1); }
    HeavyEv(HeavyEv&& o) noexcept : payload(o.payload), touched(o.touched), text(std::move(o.text)) { o.text.clear(); count(liveEvents, 1); }
    HeavyEv& operator=(const HeavyEv&) = default;
    ~HeavyEv() { count(liveEvents, -1); }
    bool ok() const // (does not allocate)
    {
        static constexpr std::string_view head = "payload of the event number ";
        char n[16];
        const std::to_chars_result r = std::to_chars(n, n + sizeof n, payload);
        return text.size() == head.size() + (r.ptr - n) && !text.compare(0, head.size(), head) && !text.compare(head.size(), std::string::npos, n, r.ptr - n);
    }
};

// ---- argument inspection ----------------------------------------------------
template <class T, class = void> struct isState : std::false_type { };
template <class T> struct isState<T, std::void_t<decltype(std::decay_t<T>::vh_state)>> : std::true_type { };
template <class T, class = void> struct isEvent : std::false_type { };
template <class T> struct isEvent<T, std::void_t<decltype(std::decay_t<T>::vh_event)>> : std::true_type { };

template <class T> StRef stOf(const std::shared_ptr<std::unique_ptr<T>>& p)
{
    if (!p || !*p) return { nullptr, -2, 0 };
    return { p->get(), (*p)->guardWord == 0x5eed0000 + T::vh_state ? T::vh_state : -3, (*p)->n };
}
template <class T> struct isPtr : std::false_type { };
template <class T> struct isPtr<std::shared_ptr<std::unique_ptr<T>>> : std::true_type { };
template <class T> StRef st(T& s)
{
    if constexpr (isState<T>::value) {
        if (!std::addressof(s)) return { nullptr, -2, 0 };
        return { &s, s.guardWord == 0x5eed0000 + std::decay_t<T>::vh_state ? std::decay_t<T>::vh_state : -3, s.n };
    } else if constexpr (isPtr<std::decay_t<T>>::value) {
        return stOf(s);
    } else {
        return { &s, -4, 0 }; // a pseudo state object (only instantiated, never expected)
    }
}
template <class T> void bump(T& s)
{
    if constexpr (isState<T>::value) {
        if constexpr (!std::is_const_v<T>) s.n++;
    } else if constexpr (isPtr<std::decay_t<T>>::value) {
        if (s && *s) (*s)->n++;
    }
}
template <class E> EvRef evr(E& e)
{
    if constexpr (isEvent<E>::value) {
        const EvRef r { &e, std::decay_t<E>::vh_event, e.payload, e.touched, e.ok() };
        if constexpr (!std::is_const_v<E>) e.touched++;
        return r;
    } else {
        return { &e, -1, 0, 0, true };
    }
}
template <class E> EvRef evg(E& e)
{
    if constexpr (isEvent<E>::value) {
        return { &e, std::decay_t<E>::vh_event, e.payload, e.touched, e.ok() };
    } else {
        return { &e, -1, 0, 0, true };
    }
}

// ---- user callbacks ----------------------------------------------------------
template <int I> struct G {
    template <class E, class S, class T, class... D> bool operator()(E&& e, S&& s, T&& t, D&&... d) const
    {
        const void* p[] = { nullptr, static_cast<const void*>(std::addressof(d))... };
        return guardCall(I, evg(e), st(s), st(t), p + 1, sizeof...(D));
    }
};
template <Kind K, int I> struct Cb {
    template <class E, class S, class T, class... D> void operator()(E&& e, S&& s, T&& t, D&&... d) const
    {
        const void* p[] = { nullptr, static_cast<const void*>(std::addressof(d))... };
        const auto ev = evr(e);
        const auto s0 = st(s), t0 = st(t);
        bump(s);
        bump(t);
        call(K, I, ev, s0, t0, p + 1, sizeof...(D));
    }
};
template <int I> using A = Cb<ACTION, I>;
template <int I> using En = Cb<ENTRY, I>;
template <int I> using Ex = Cb<EXIT, I>;
struct Unexpected {
    // exactly (event, state, dependencies...)
    template <class E, class S, class... D> void operator()(E&& e, S&& s, D&&... d) const
    {
        const void* p[] = { nullptr, static_cast<const void*>(std::addressof(d))... };
        const auto ev = evr(e);
        const auto s0 = st(s);
        bump(s);
        call(UNEXP, 0, ev, s0, { nullptr, -1, 0 }, p + 1, sizeof...(D));
    }
};
// create_state factory: gets copies of event and source
template <int I, class Target> struct Factory {
    template <class E, class S> auto operator()(E&& e, S&& s) const
    {
        auto object = std::make_unique<Target>(1000 + (isEvent<E>::value ? evg(e).payload : 0) * 10 + st(s).n);
        call(FACTORY, I, evg(e), st(s), { object.get(), -1, 0 }, nullptr, 0);
        return object;
    }
};

// ---- machine description (reference model tables, produced by gen.py) -------
struct Row {
    int guard = -1;
    std::vector<int> act; // action ids in call order
    int srcObj = -1, tgtObj = -1; // state objects handed to the callbacks
    int exitS = -1, entryS = -1, entry2 = -1; // callbacks that have to run
    int tp = -1, ts = -1; // target parent/state
    int histP = -1;
    bool internal = false;
    int special = 0; // 1 create_state, 2 reuse_state, 3 hsm::log
    std::string text;
};
struct Desc {
    std::string name;
    std::vector<std::string> states; // index: state
    std::vector<std::string> events;
    std::vector<int> parents; // state index of each parent
    std::vector<std::pair<int, int>> init; // per root region: parent idx, state
    std::vector<int> initialOf; // per parent: initial child
    std::vector<std::pair<int, int>> pairs; // all (parent, child) pairs
    std::vector<Row> rows;
    // candidate rows by priority: [(p * nS + s) * (nE + 1) + e], e == nE: anonymous
    std::vector<std::vector<int>> cand;
    std::vector<std::uint64_t> defer; // per state
    std::vector<bool> noEvent; // per event: not an event of this machine
    std::vector<bool> absent; // per state: listed for another machine of the same program
    std::vector<bool> unnamed; // per state: a composite that only appears in pseudo states
    std::vector<bool> ndc; // per state: not default constructible
    int ndeps = 0;
    int nguards = 0;
    bool unexp = false;
    bool history = false;
    bool anonymous = false;
    int nS() const { return int(states.size()); }
    int nE() const { return int(events.size()); }
};

struct FireResult {
    bool ret = false;
    int touched = 0;
    bool same = true; // value of the caller's event unchanged
};

template <class E> struct Local {
    E e;
    FireResult& r;
    Local(int p, FireResult& res) : e(p), r(res) { }
    ~Local()
    {
        r.touched = e.touched;
        r.same = e.ok();
    }
};

struct Driver {
    virtual ~Driver() = default;
    virtual void create(int pattern, const std::vector<Dep*>& deps) = 0;
    virtual void destroy() = 0;
    virtual void abandon() = 0; // the constructor of the machine threw
    virtual void move(int how, int pattern, const std::vector<Dep*>& deps) = 0;
    virtual void assign(Driver& from) = 0; // from: same class; is destroyed
    virtual void fire(int ev, int payload, bool rvalue, const void** addr, FireResult& r) = 0;
    virtual bool is(int region, int p, int s) = 0; // is(region, parent, state)
    virtual bool is2(int p, int s) = 0;
    virtual bool is1(int s) = 0;
    virtual bool parentIs(int p) = 0;
    virtual void set(int region, int p, int s) = 0;
    virtual void set2(int p, int s) = 0;
    virtual void set1(int s) = 0;
    virtual void setDeps(const std::vector<Dep*>& deps) = 0;
    virtual std::string status() = 0;
    virtual const Desc& desc() = 0;
};

struct Entry {
    const char* name;
    Driver* (*make)();
};
extern Entry registry[1024];
extern int registrySize;
struct Register {
    Register(const char* n, Driver* (*m)()) { registry[registrySize++] = { n, m }; }
};
}
