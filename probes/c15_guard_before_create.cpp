// A guarded create_state row: the guard gets the target object, which does not
// exist before the first creation (null reference).
#include <hsm/hsm.h>
#include <memory>
struct e { };
struct A { };
struct N {
    explicit N(int) { }
};
static bool null = false;
struct M {
    static constexpr auto make_transition_table()
    {
        using namespace hsm;
        auto guard = [](const auto&, auto& source, auto& target) {
            (void)source;
            auto* volatile p = std::addressof(target);
            null = p == nullptr;
            return true;
        };
        auto make = [](auto&&...) { return std::make_unique<N>(1); };
        return transition_table(*state_t<A> {} + event_t<e> {}[guard] / create_state(make) = state_t<N> {});
    }
};
int main()
{
    hsm::sm<M> m;
    m.process_event(e {});
    return null ? 1 : 0;
}
