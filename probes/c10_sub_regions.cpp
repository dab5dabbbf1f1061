// A composite with two regions is entered: both regions should start in their
// initial states, and leaving it should run the row's action once.
#include <hsm/hsm.h>
struct in { };
struct out { };
struct t { };
static int left = 0;
struct A { };
struct X1 { };
struct X2 { };
struct Y1 { };
struct Y2 { };
struct P {
    static constexpr auto make_transition_table()
    {
        using namespace hsm;
        return transition_table(
            *state_t<X1> {} + event_t<t> {} = state_t<Y1> {},
            *state_t<X2> {} + event_t<t> {} = state_t<Y2> {});
    }
};
struct M {
    static constexpr auto make_transition_table()
    {
        using namespace hsm;
        auto leave = [](auto&&...) { left++; };
        return transition_table(
            *state_t<A> {} + event_t<in> {} = state_t<P> {},
            state_t<P> {} + event_t<out> {} / leave = state_t<A> {});
    }
};
int main()
{
    // a zeroed object keeps the uninitialised region within the machine's states
    alignas(hsm::sm<M>) static unsigned char mem[sizeof(hsm::sm<M>)];
    auto& m = *new (mem) hsm::sm<M>();
    m.process_event(in {});
    const bool ok = m.is(0, hsm::state_t<P> {}, hsm::state_t<X1> {}) && m.is(1, hsm::state_t<P> {}, hsm::state_t<X2> {});
    return ok ? 0 : 1;
}
