import json
D='include/hsm/details/'
P=[]
def p(id,title,stmt,over,qt,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],observe_at=observe,hook_needed=None)))
cur=("m_currentCombinedState","current (parent, state) pair of every region",D+"sm.h")
p("C01","A taken transition leads to exactly its declared target",
 "A newly constructed machine is in the declared initial state of every region and has run no user callback. Whenever an event makes a transition fire, the machine is afterwards in exactly the target state that this row of the transition table declares (self transitions included), and an event that fires nothing leaves the configuration as it was. This depends only on the current state, the event and the guards, never on how that state was reached.",
 ["programs","histories","inputs"],"every machine shape of the generated families, every event sequence (all up to the depth bound, and every transition of the reachable state graph), every guard answer",
 "The integration tests drive about one hand-written path per row of a few small tables; the library is a compile-time program over arbitrary tables, so every table/history pair is a different input.",
 [D+"sm.h",D+"fill_dispatch_table.h",D+"resolve_state.h",D+"idx.h",D+"index_map.h",D+"collect_states.h",D+"collect_initial_states.h"],
 [("addDispatchTableEntry",D+"fill_dispatch_table.h"),("update_current_state",D+"sm.h"),("getCombinedStateIdx",D+"idx.h")],["sm::process_event","sm::is"],[cur])
p("C02","Guards decide and the later declared row wins",
 "Among the rows that match the current state and event, external rows are considered before internal ones and within each kind later declared rows before earlier ones; the first whose guard accepts fires, exactly one row fires per region, and a row without guard always accepts. A row whose guard rejects never changes the state and never runs an action or an entry or exit callback. Guards are called only for rows that match the current state and event, with that event and the row's source and target objects.",
 ["programs","inputs","histories"],"every number (1..4) and mix of competing guarded/unguarded external/internal rows in the generated machines, every combination of guard answers, after every reachable history",
 "The tests use constantly true or false guards on at most two competing rows, so almost none of the 2^n guard valuations is exercised.",
 [D+"sm.h",D+"fill_dispatch_table.h",D+"dispatch_table.h"],
 [("process_event_internal",D+"sm.h"),("push_front order of dispatch entries",D+"fill_dispatch_table.h"),("executeGuard",D+"dispatch_table.h")],["guard and action calls","sm::is"],[cur])
p("C03","process_event returns true exactly when a transition was taken",
 "process_event returns true if and only if at least one region took an external or internal transition for the given event. It returns false when every matching guard rejected, when no row matches, and when the event was deferred; completion transitions and recalled deferred events that run in the same call do not change the result.",
 ["programs","histories","inputs"],"every event x guard valuation x reachable configuration (flat, hierarchical, orthogonal, deferring machines)",
 "The existing test asserts three calls on one machine.",
 [D+"sm.h"],[("ProcessEventResult handling in process_event",D+"sm.h")],["return value of sm::process_event"],[cur])
p("C04","Unexpected events reach the handler exactly once",
 "If the machine declares an unexpected event handler and no row of any active region matches a processed event and the event is not deferred, the handler is called exactly once, with that event, the state object of the machine's current state (of the first region) and the injected dependencies, and the configuration does not change. In every other case (a row matched, even if its guard rejected; the event was deferred; completion; recall) the handler is not called.",
 ["programs","histories","inputs"],"every (configuration, event, guard valuation) of the generated flat, hierarchical and orthogonal machines",
 "The tests raise one unexpected event in one state of three machines.",
 [D+"sm.h",D+"fill_unexpected_event_handler_tables.h",D+"make_unexpected_event_handler_tables.h"],
 [("call_unexpected_event_handler",D+"sm.h"),("fill_unexpected_event_handler_tables",D+"fill_unexpected_event_handler_tables.h")],["calls of the handler"],[cur])
p("C05","Exit, transition and entry actions run once and in order",
 "When an external transition between named states fires, the exit action of the row's source, the transition action, the entry action of the row's target and, if the target is a composite state, the entry action of its initial sub state run in this order, each exactly once, and only those that are declared; no action of another row or state runs. A self transition runs exit and entry as well. This holds no matter whether the row carries an event, a guard, an action or the initial marker.",
 ["programs","histories"],"every combination of row form (event/guard/action/initial marker) with source and target kind and with presence of entry/exit actions, on every path of the bounded exploration",
 "The entry/exit tests use two machines in which most rows have no action and each callback is observed once with a promise, so order and multiplicity are not asserted.",
 [D+"resolve_state.h",D+"has_action.h",D+"traits.h",D+"dispatch_table.h"],
 [("resolveEntryExitAction",D+"resolve_state.h"),("has_action",D+"has_action.h")],["order of user callbacks"])
p("C06","Composite states enter their initial state and scope their rows",
 "A transition whose target is a composite state puts the region into the composite's initial sub state; rows declared for the composite itself fire from each of its direct sub states and lead out of it, rows declared inside it fire only while the region is inside it, and a sub state never reacts to the rows of another composite even if both contain the same state type. is and parent_is report the enclosing composite accordingly at every nesting depth.",
 ["programs","histories"],"all event sequences over machines with shared state types between levels, nesting depth up to 4, several composites and composites entered from several rows",
 "Tests enter and leave two sub machines along single fixed paths.",
 [D+"flatten_transition_table.h",D+"fill_dispatch_table.h",D+"resolve_state.h",D+"collect_parent_states.h",D+"sm.h"],
 [("addDispatchTableEntryOfSubMachineExits",D+"fill_dispatch_table.h"),("flatten_sub_transition_table",D+"flatten_transition_table.h"),("resolveDst/resolveDstParent",D+"resolve_state.h")],["sm::is","sm::parent_is","user callbacks"],[cur])
p("C07","Entry, exit and direct pseudo states target exactly the named sub state",
 "A transition to entry<P,S> or direct<P,S> puts the region into sub state S of P, whatever P's initial state is. A row whose source is exit<P,S> or direct<P,S> fires only while the region is in sub state S of P and leads to its declared target; leaving through exit<P,S> runs the exit action of P exactly once, before the transition action.",
 ["programs","histories"],"every pairing of pseudo state source/target kinds with plain and composite targets, all event sequences up to the bound",
 "Tests check one entry, one exit and one direct row each.",
 [D+"resolve_state.h",D+"pseudo_states.h",D+"flatten_transition_table.h",D+"has_action.h"],
 [("resolveSrc/resolveSrcParent/resolveDst/resolveDstParent",D+"resolve_state.h")],["sm::is","user callbacks"])
p("C08","History restores the last active sub state",
 "A transition to history<P> puts the region into the sub state of P that was active in that region when P was last left, or into P's initial sub state if P has never been left; this is recorded per composite state and per region and however P is left (composite row, exit or direct pseudo state) and entered. Entering P by a normal transition still starts in its initial state.",
 ["histories","programs"],"all sequences of enter/move/leave/restore up to the depth bound and the complete reachable graph over (configuration, remembered sub states), with one or two composites, nesting and two regions",
 "History is a function of the whole past; the two tests check one past each.",
 [D+"sm.h",D+"resolve_state.h",D+"transition_table_traits.h"],
 [("m_history update in update_current_state",D+"sm.h"),("resolveHistory",D+"resolve_state.h")],["sm::is"],[("m_history","last state per parent state and region",D+"sm.h")])
p("C09","Completion transitions run until none is enabled",
 "After an event was processed, anonymous transitions of the current state are taken, one after the other with the same guard, priority and action rules as other rows, until the region rests in a state in which none is enabled. They run only as a consequence of a processed event (not at construction and not after an unhandled, rejected or deferred event), and they run before control returns to the caller.",
 ["programs","histories","inputs"],"chains, branches, loops and composite entries/exits by anonymous transitions with every guard valuation that terminates",
 "Tests use chains of length one or two with constant guards.",
 [D+"sm.h",D+"transition_table_traits.h"],
 [("process_anonymous_transitions",D+"sm.h"),("has_anonymous_transition",D+"transition_table_traits.h")],["user callbacks","sm::is"])
p("C10","Orthogonal regions react independently to every event",
 "In a machine with several initial states every event is offered to every region, in region order; each region reacts as a machine of its own would (own current state, own guards, own sub state machine), and no region's reaction changes the current state of another region. Queries with a region index report that region.",
 ["programs","histories","inputs"],"products of 2 and 3 regions (shared and disjoint state types, regions entering sub state machines), all event sequences and guard valuations up to the bound and the full product graph",
 "Tests fire one event per fresh two-region machine.",
 [D+"sm.h",D+"collect_initial_states.h"],
 [("region loops in process_event_internal / process_anonymous_transitions",D+"sm.h"),("fill_initial_state_table",D+"collect_initial_states.h")],["sm::is with region","user callbacks"],[cur,("m_currentRegions","number of active regions",D+"sm.h")])
p("C11","Internal transitions run their action and nothing else",
 "An internal transition of a composite (or of the root machine) applies in every direct sub state of it, an internal transition of a simple state applies in that state only; when it fires it runs its action once, with the current state's object as source and target, and neither runs entry or exit actions nor changes any region's state or history. It is considered only if no external row of the current state fires.",
 ["programs","histories","inputs"],"internal tables on root, composites and simple states combined with external rows on the same events, all guard valuations and histories",
 "Tests fire single internal events in fixed states.",
 [D+"flatten_internal_transition_table.h",D+"dispatch_table.h",D+"sm.h"],
 [("flatten_internal_transition_table",D+"flatten_internal_transition_table.h"),("executeAction Internal branch",D+"dispatch_table.h"),("update_current_state internal shortcut",D+"sm.h")],["user callbacks","sm::is"])
p("C12","Deferred events are neither lost, duplicated, altered nor reordered",
 "An event that the current state of any active region defers has no effect when processed and is kept with its payload. After each processed event the kept events are offered again in their arrival order; an event still deferred stays kept, any other is handed to the machine exactly once (and dropped silently if nothing matches), until no kept event causes a transition any more.",
 ["histories","inputs","programs"],"all event sequences over deferring machines with queues of up to 3 (quick) or 5 (thorough) pending events carrying distinct payloads, one and two regions, chained recalls",
 "Tests defer one event once and look only at the final state.",
 [D+"sm.h",D+"variant_queue.h",D+"fill_dispatch_table.h"],
 [("process_deferred_events",D+"sm.h"),("variant_queue",D+"variant_queue.h"),("fill_dispatch_table_with_deferred_events",D+"fill_dispatch_table.h")],["user callbacks with event payload","sm::is","return value"],[("m_defer_queue","events kept for later",D+"sm.h")])
p("C13","Callbacks get exactly the currently injected dependencies",
 "Every guard, action, entry and exit action and unexpected event handler receives the dependency objects given to the constructor, as the very same objects, in the given order. After set_dependency all of them receive only the new objects, and nothing else about the machine (state, history, deferred events, priorities) changes, no matter when and how often dependencies are replaced.",
 ["histories","programs"],"machines with 1, 2 and 3 dependencies; dependency replacement at every point of every event sequence up to the bound",
 "Tests inject one dependency and replace it once before any event.",
 [D+"sm.h",D+"dispatch_table.h",D+"fill_dispatch_table.h",D+"make_unexpected_event_handler_tables.h"],
 [("set_dependency",D+"sm.h"),("DispatchTableEntry::m_optionalDependency",D+"dispatch_table.h")],["arguments of user callbacks"])
p("C14","State objects are per machine, unique and persistent",
 "A machine owns exactly one object per default constructible state type, created with the machine; every callback that names the state as source or target receives that same object for the machine's whole life, so data written by one callback is read unchanged by every later one, across leaving and re-entering, composites, history and deferral. The object passed as source or target is the one the row refers to.",
 ["histories","programs"],"all event sequences up to the bound with every callback writing to its source and target objects",
 "Tests read one counter after one transition.",
 [D+"make_states_map.h",D+"traits.h",D+"dispatch_table.h",D+"fill_dispatch_table.h"],
 [("make_states_map",D+"make_states_map.h"),("unwrap_typeid_to_shared_ptr",D+"traits.h")],["addresses and contents of state objects seen by callbacks"],[("m_statesMap","state objects",D+"sm.h")])
p("C15","create_state builds and reuse_state keeps the target object",
 "When a transition with create_state fires, its factory is called exactly once with the event and the source object, and from then on the target state's object is the factory's result; the previous object, if any, is destroyed. A transition with reuse_state calls its action once with event, source and the existing target object and keeps that object, and transitions out of such a state see the object created last.",
 ["histories","inputs"],"all sequences of create, reuse, plain and self transitions over states without default constructor, up to the bound, with event-dependent factories",
 "One test creates once and reuses once.",
 [D+"create_state.h",D+"reuse_state.h",D+"dispatch_table.h",D+"traits.h"],
 [("CreateState::operator()",D+"create_state.h"),("ReuseState::operator()",D+"reuse_state.h")],["factory/action calls, object contents and live object counts"])
p("C16","All transition notations describe the same machine",
 "The same table written in postfix notation (source + event [guard] / action = target), in prefix notation (target <= source + event [guard] / action) or as transition(source, event, guard, action, target) gives machines that behave identically: same states, return values and callbacks with the same arguments in the same order, for every event history and every guard answer. The same holds for internal transitions written in either form.",
 ["programs","histories","inputs"],"every row form each notation supports (with and without event, guard, action, initial marker; plain, composite, entry, direct, history targets; exit sources), explored in lock step",
 "The tests check that each notation compiles and fires once.",
 ["include/hsm/front/transition_dsl.h","include/hsm/front/transition_tuple.h",D+"state.h",D+"event.h",D+"transition.h"],
 [("operator+ / operator[] / operator/ / operator= / operator<=",D+"state.h"),("Transition* classes","include/hsm/front/transition_dsl.h")],["user callbacks","sm::is","return value"])
p("C17","Chained actions run left to right, each exactly once",
 "An action built with chain_actions (or chain) runs every chained action exactly once, in the given order, each with the same event, source, target and dependency objects that a single action would get; nested chains behave like the flattened chain. If one of them throws, the later ones do not run.",
 ["programs","histories","fault_sequences"],"chains of length 1..5, nested chains, chains in external, internal, completion and deferred rows; a throw in every position",
 "One test chains a few actions and observes each once.",
 [D+"chain_actions.h"],[("chain_actions",D+"chain_actions.h")],["order and arguments of action calls"])
p("C18","set() places exactly the requested region and nothing else",
 "After set(region, parent, state) (or set(parent, state), set(state) for the first region and, in the last form, the root machine) that region is in that state and all others are unchanged; no user callback runs, and pending deferred events, history and state objects stay as they are. A region that does not exist is refused with an exception and nothing changes. From then on the machine behaves as if it had reached that configuration by transitions.",
 ["histories","configurations"],"every set() target for every region at every point of every event sequence up to the bound",
 "Tests call set() once on a fresh machine.",
 [D+"sm.h"],[("set",D+"sm.h")],["sm::is","later behaviour"],[cur])
p("C19","An exception from a callback leaves the machine usable",
 "An exception thrown by a guard, action, entry, exit action or unexpected event handler reaches the caller of process_event unchanged and no further callback runs in that call. If a guard throws no region changes state because of it; if another callback throws, its region is either still in the source or already in the target of that transition, other regions are unaffected, and other pending deferred events are kept. Afterwards the machine keeps behaving according to its table.",
 ["fault_sequences","histories"],"a throw injected at every single callback of every event of every sequence up to the bound, followed by further events",
 "No existing test throws.",
 [D+"sm.h",D+"dispatch_table.h"],[("process_event_internal: state updated before actions",D+"sm.h")],["exception seen by the caller","sm::is","later behaviour"])
p("C20","No undefined behaviour and no leaks over any history",
 "Constructing, driving in any way the API allows (events, set, set_dependency, queries, exceptions from callbacks) and destroying a machine accesses only memory it owns and initialised, and releases everything it allocated. State and event objects are destroyed exactly as often as they are created. This includes failures from outside at any point: a state constructor or an allocation that fails while the machine is constructed, an allocation or an event copy that fails while events are processed.",
 ["histories","fault_sequences","programs"],"all histories of the other explorations re-run under AddressSanitizer/UndefinedBehaviorSanitizer with poisoned initial memory, plus allocation balance after every run",
 "Tests are built without sanitizers and destroy machines right after one or two events.",
 [D+"sm.h",D+"dispatch_table.h",D+"utils/dunique_ptr.h",D+"variant_queue.h",D+"make_states_map.h"],
 [("dunique_ptr",D+"utils/dunique_ptr.h"),("raw index access guarded by table sizes",D+"sm.h")],["sanitizer reports","allocation and object counts"])
p("C21","The amalgamated header behaves like the modular headers",
 "A program that includes the single amalgamated header instead of hsm/hsm.h compiles and behaves identically: same states, return values, callbacks and arguments for every machine, event history and guard answer.",
 ["programs","histories"],"the generated machine families compiled against both headers and explored in lock step",
 "One test only includes it and fires one event; at the pinned commit the file had drifted several features behind.",
 ["include/hsm/gen/hsm.h","include/hsm/hsm.h"],[("generated by quom from hsm.h","include/hsm/gen/hsm.h")],["all observables of both builds"])
p("C22","Machine instances do not influence each other",
 "Several machines, of the same or of different types sharing states, events, guards and actions, behave as if each were alone: interleaving their events in any order, processing an event on one from inside a callback of another, replacing dependencies of one, and creating or destroying others changes neither the states nor the callbacks nor the state objects of any.",
 ["schedules","histories"],"all interleavings of event sequences of two instances up to the bound, including nested processing inside a callback and destruction/re-creation of one of them",
 "Every test uses a single machine per fixture.",
 [D+"sm.h",D+"fill_dispatch_table.h",D+"make_states_map.h"],[("all tables are members of sm",D+"sm.h")],["per-instance observables compared with a solo run"])
p("C23","Ill-formed machines do not compile, well-formed ones do",
 "A machine without transition table, with an empty table, without initial state, whose root initial state is a composite or has internal transitions, a processed event that no row mentions, and set() with a state or parent that is not part of the machine are rejected at compile time. Every table built from the documented row forms is accepted.",
 ["programs"],"all programs of an enumerated grammar of small machines and uses, each classified by a reference predicate",
 "Compile failures cannot be asserted by the run-time tests at all.",
 [D+"sm.h",D+"collect_initial_states.h",D+"transition_table_traits.h"],[("static_asserts in sm::sm, process_event and set",D+"sm.h")],["compiler verdict"])
p("C24","Callbacks see the caller's event, unaltered",
 "Every callback that runs because of a processed event receives the very event object given to process_event (not a copy), whether passed as lvalue or temporary, with its value unchanged by the library, and what callbacks write to it is visible to later callbacks and to the caller. A deferred event is delivered later as a copy that equals the event at the time it was deferred; completion transitions get the anonymous event.",
 ["inputs","histories"],"events with trivially and non-trivially copyable payloads, lvalue and rvalue, all event sequences up to the bound in flat, hierarchical, orthogonal and deferring machines",
 "Tests pass empty events or read one payload once.",
 [D+"sm.h",D+"dispatch_table.h",D+"variant_queue.h"],[("process_event(Event&&) forwards an lvalue",D+"sm.h"),("variant_queue stores copies",D+"variant_queue.h")],["event argument of callbacks"])
p("C25","Queries are exact, mutually consistent and free of side effects",
 "In every configuration exactly one (parent, state) pair is reported for every active region, parent_is and the short forms of is agree with it for the first region, an out-of-range region is refused with an exception, and status() prints one entry per active region, numbered from 0, with equal text for equal and different text for different configurations. Queries run no callback and change nothing, however often and whenever they are called.",
 ["histories","configurations","inputs"],"every (region, parent, state) query in every reachable configuration, runs with and without interleaved queries compared",
 "Tests ask a few positive is() questions and never compare status() texts.",
 [D+"sm.h",D+"idx.h",D+"index_map.h"],[("is / parent_is / status",D+"sm.h"),("calcStateIdx/calcParentStateIdx",D+"idx.h")],["return values of the queries"],[cur])
p("C26","hsm::log reports each taken transition once",
 "A row with hsm::log as its action (alone or chained, external, internal or completion) prints exactly one line 'source + event = target' with the type names of the source, event and target passed to the action each time it fires, and nothing when it does not fire; logging changes nothing else about the machine.",
 ["programs","histories"],"all event sequences up to the bound over machines whose rows use the logging action",
 "Tests call the logger but never look at the output.",
 [D+"log.h"],[("log",D+"log.h")],["std::cout"])
p("C27","A machine that is moved carries on exactly where it was",
 "Move construction, move assignment (onto a new or a used machine), swapping and growing a std::vector of machines transfer the whole machine: configuration, history, pending deferred events in order, state objects with their data, created states and injected dependencies. No user callback runs; the new machine answers every later event exactly as the old one would have; what the assigned-to machine held before is released once and nothing leaks; other machines are not affected.",
 ["histories","schedules"],"all event sequences up to the bound with a move (four ways, plus assignment between two live machines) inserted at every position, over machines with history, deferral, regions, created states and dependencies",
 "No test moves a machine.",
 [D+"sm.h",D+"utils/dunique_ptr.h",D+"variant_queue.h",D+"make_states_map.h"],[("all members of sm are values or own their objects",D+"sm.h")],["configuration and callbacks after a move","live object and allocation counts"],[cur])
p("C28","Machines used by different threads need no synchronisation",
 "Two machines, of the same type or of different types that share states, events, guards and actions, may be constructed, used (events, deferral and recall, set, set_dependency, queries) and destroyed by two threads at the same time without any lock: whatever the two histories are, no memory location that one thread's calls write is touched by the other thread's calls, so there is no data race and every interleaving gives each machine the behaviour it would have alone.",
 ["schedules","histories"],"pairs of histories of two machines, each on a thread of its own, with the second running between the operations and inside the callbacks of the first, with exceptions; every memory access of the library to static storage and heap tracked and checked for dependence, which decides all interleavings of the accesses",
 "Every test is single threaded.",
 [D+"sm.h",D+"variant_queue.h",D+"fill_dispatch_table.h",D+"make_states_map.h",D+"make_dispatch_tables.h"],[("all state of a machine is a member of sm, none is static",D+"sm.h")],["memory locations read and written per thread","per-machine observables"],[cur])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
