// The composite-level row P + out = A must leave P from every state nested in it;
// it is not applied while a composite inside P is active.
#include <hsm/hsm.h>
struct in { };
struct down { };
struct out { };
struct A { };
struct X { };
struct Y { };
struct Q {
    static constexpr auto make_transition_table()
    {
        using namespace hsm;
        return transition_table(*state_t<Y> {} + event_t<down> {} = state_t<Y> {});
    }
};
struct P {
    static constexpr auto make_transition_table()
    {
        using namespace hsm;
        return transition_table(*state_t<X> {} + event_t<down> {} = state_t<Q> {});
    }
};
struct M {
    static constexpr auto make_transition_table()
    {
        using namespace hsm;
        return transition_table(
            *state_t<A> {} + event_t<in> {} = state_t<P> {},
            state_t<P> {} + event_t<out> {} = state_t<A> {});
    }
};
int main()
{
    hsm::sm<M> m;
    m.process_event(in {});
    m.process_event(down {});
    m.process_event(out {});
    return m.is(hsm::state_t<M> {}, hsm::state_t<A> {}) ? 0 : 1;
}
