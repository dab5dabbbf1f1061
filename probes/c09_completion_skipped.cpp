// Region 1 becomes able to complete (B -> C) by an event, but region 0 rests in a
// state without anonymous transitions: the completion of region 1 is skipped.
#include <hsm/hsm.h>
struct e { };
struct never { };
struct Idle { };
struct A { };
struct B { };
struct C { };
struct M {
    static constexpr auto make_transition_table()
    {
        using namespace hsm;
        return transition_table(
            *state_t<Idle> {} + event_t<never> {} = state_t<Idle> {},
            *state_t<A> {} + event_t<e> {} = state_t<B> {},
            state_t<B> {} = state_t<C> {});
    }
};

int main()
{
    hsm::sm<M> m;
    m.process_event(e {});
    return m.is(1, hsm::state_t<M> {}, hsm::state_t<C> {}) ? 0 : 1;
}
