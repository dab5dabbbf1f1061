// Two internal rows whose guards and actions have the same type (function
// pointers, std::function) but different values: only the first is kept.
#include <hsm/hsm.h>
struct e { };
struct go { };
struct A { };
static int ran = 0;
struct Guard {
    bool answer;
    template <class... T> constexpr bool operator()(T&&...) const { return answer; }
};
struct Do {
    int n;
    template <class... T> void operator()(T&&...) const { ran = n; }
};
struct I {
    static constexpr auto make_internal_transition_table()
    {
        using namespace hsm;
        return transition_table(
            +(event_t<e> {}[Guard { true }] / Do { 1 }), +(event_t<e> {}[Guard { false }] / Do { 2 }), +(event_t<e> {}[Guard { true }] / Do { 3 }));
    }
};
struct M {
    static constexpr auto make_transition_table()
    {
        using namespace hsm;
        return transition_table(*state_t<A> {} + event_t<go> {} = state_t<I> {});
    }
};
int main()
{
    hsm::sm<M> m;
    m.process_event(go {});
    m.process_event(e {});
    return ran == 3 ? 0 : 1; // the later declared row with an accepting guard wins
}
