"""Per-property notes for DESIGN.md: how it is decided, and what is left out."""

HOW = {
"C01": "Paths of every emission entry point (`emit`, `emit_fast`, `__call__`, the three loop functions, the group relay's override) for each mode and each combination of check flags; the loop event's source must be the slot list, its body one delivery of the current slot with the emitted tuple. Bound: none on slots or arguments (loop bodies are summarised). The known finding (live iteration while callbacks remove) is excluded by key.",
"C02": "The path sets of the three loop functions: position of 'take the item off the queue' relative to the delivery, guard under which remaining slots are skipped, and how the drain treats entries appended meanwhile. Also the dispatch table after `__setstate__`.",
"C03": "Save/restore pairing on all exits (normal, each exception class) of every emission function: nesting counter, queue, current emitter, lock, latest-only mark; compared as symbolic values with the state on entry, under an opaque callback that may change everything a callback may change.",
"C04": "For each exception class a callback can raise (ordinary, EmitLoopError, RecursionError, BaseException) the exceptional exits of the emission functions are enumerated and the class, cause and signal of what leaves are compared with the documented one. A taint analysis over the syntax tree (sa/textsafe.py) follows the exception, the arguments and the object through the functions that build the message and requires every place that takes their text to be one where a failure is caught.",
"C05": "Branch facts at each delivery: the nesting counter is known below the limit, or the backlog within it; counter arithmetic compared linearly.",
"C06": "Lock-set analysis: every write to the slot list of every method reachable from the public API happens with the signal's lock held, find-and-change within one acquire/release region, delivery inside it; kind of lock and its presence in `__init__`/`__setstate__`.",
"C07": "Local rule: at each insertion the facts must entail the position (loop passed over items known not lower). History rule: clients with up to 3 (thorough: 4) registrations, removals, clearings with symbolic priorities over all orderings, followed through connect/disconnect; the final list order compared with the stable sort.",
"C08": "Clients connecting through every public way with symbolic options; the registered callback's constructor arguments are compared with the options, including decorator form used twice and group forwarding.",
"C09": "Exceptional exits of the connect family: no write to any field before the raise; each documented reason for refusal must have a path that raises, under the flag combinations that ask for it.",
"C10": "Clients build every kind of weak callback, deliver symbolic argument tuples, and compare the final opaque call's target, positional and keyword arguments.",
"C11": "Clients with two or three connected callbacks and symbolic equality; the removed element must be the one compared equal, others untouched. Key tuples of every callback class are compared field by field.",
"C12": "Reachability over the abstract heap: from the built callback over all strong fields, closures, partials and bound methods; the receiver must be reachable only through weakref objects.",
"C13": "Guards around delivery: a live dereference result is tested with `is None`; finalizer wiring followed from each connect entry point to the removal; the dead path has exactly one effect.",
"C14": "Facts: on every path where the blocked flag is true an emission has no effect event at all; who-may-write analysis of the flag.",
"C15": "Clients pause, emit symbolic tuples, resume (with and without reducer/initial), log of deliveries compared; order 'unpause, clear, deliver' by event positions.",
"C16": "Scoped helpers as context managers on normal and exceptional exits, nested two deep, also for groups with exclusions.",
"C17": "Clients with a two-signal group: relay attach/detach at the 0/1 boundary of callbacks, in each removal form; payload of the re-emitted EmissionInfo.",
"C18": "Sibling agreement: each group operation against the relay's operation of the same name (same parameters forwarded), and effects on each member.",
"C19": "Clients with symbolic current/target thread identity; queue operations as events; lock/atomicity of the queue registry; non-blocking drain.",
"C20": "Field-by-field comparison of the state tuple written by `__getstate__`/`__reduce__`/`__deepcopy__` with the fields `__init__` creates, and what `__setstate__` rebuilds.",
"C21": "Clients declare a signal with symbolic options and read it from instances with and without settable attributes; the instance's fields are compared with the declaration; finalizer for remembered ones.",
"C22": "The emitter stack at each delivery event and after it, in nested clients; per-thread storage of the stack.",
"C23": "Clients define models with fields, properties and dependents (pydantic's metaclass effects are stood in for by a recorded class body), assign through the real `__setattr__`, and compare the logs of emissions.",
"C24": "Recording backing store and signals; every public mutator with index/slice kinds enumerated; logs compared (events around the change, index arithmetic compared as linear expressions).",
"C25": "As C24 for the dict, plus type checks and copy.",
"C26": "As C24 for the sets; the bulk operations with self, iterators and repeated items.",
"C27": "Clients with a two- or three-item list and its selection over symbolic identities; the final active/current/selected sets are compared.",
"C28": "Each proxy method followed with the wrapped object opaque; versions of the reads tell the value before from the value after; the group lookup on its own.",
"C29": "Roles of the fields are read off the constructor and `__call__`; each method is followed for both outcomes of every test of timer, edge and pending mark; the decorators as clients.",
"C30": "Connection and disconnection sequences of item signals against items entering and leaving in the log; payload of the child event.",
"C32": "Clients monitor recording signals with loggers of each form and leave the block normally and by an exception; emit and resume followed for the global hook.",
"C31": "The patched `__setattr__` followed over a recorded object, with symbolic comparison results and listeners.",
"C33": "The paths of the field iterator are enumerated; for each, what it knows of the kind of class, which attribute the listed fields come from, and per field the condition, name and type listed are compared with the statement.",
"C34": "Clients call the group-building function over the field iterator (field kinds enumerated) and compare the group's signals, aliases and operators.",
"C35": "Clients read the descriptor on instances, subclasses and the class, with and without settable attributes; memo keys, finalizers and patch flag.",
}

LIMITS = {
"C01": "Not decided: what a callback's own code does with the arguments.",
"C06": "emit_fast is documented as unlocked. Deadlock between several signals is not claimed.",
"C09": "The comparison of annotation types itself (`_parameter_types_match`) is taken as an oracle.",
"C23": "pydantic's validation and metaclass are stand-ins; numerical equality of user types is symbolic.",
"C24": "Permutation arithmetic of move_multiple (which order results) is only checked for its events and for the items kept.",
"C28": "wrapt's own methods are external: that they change the wrapped object is assumed.",
"C29": "One caller at a time; timer-thread races and elapsed time are not claimed (N01).",
"C27": "Scenarios have up to three items; transient active events within one operation are allowed.",
}

CORRECTED = """
## False alarms and corrections during development

* C14 first demanded that `blocked(exclude=...)` keep the relay silent for excluded members; that is
  intended behaviour, the statement was narrowed.
* C03/C22 first compared the emitter restored by `emit_fast`, which never sets one; narrowed to
  ordinary emissions.
* C24.insert first demanded a normalised index in the events; the code documents the index as given.
* C27 first forbade repeated `active` events within one operation; now only the final state and
  that each event tells the active item are decided.
* C19 first demanded that a receiver dying in the queue be skipped; it surfaces as EmitLoopError.
* Many engine imprecisions were found by the refactoring cases in `selftest/` (exactness of
  displays with `*`, `setdefault`, `dict.fromkeys`, generators, `itertools.chain`, class-level
  globals, stdlib ABC mixins) and repaired in the engine rather than by loosening rules.

## Defects found on the way

See `known_findings.txt`: the genuine defects the checks (or writing them) turned up; those with a
small and safe repair were repaired in `fix:` commits, three are kept as known findings:

* C01.live|slots: delivery iterates the live slot list, so a callback that disconnects itself makes
  the next one be skipped. The obvious repair (iterate a copy) changes the documented behaviour of
  callbacks connected during emission and costs a copy per emission in the hot loop.
* C06.lock|finalizer: the weakref finalizer changes the list without the lock; taking the lock in a
  finalizer can deadlock the collector, so it is not a small repair.
* C31.once|super: a class that overrides `__setattr__`, calling its base's, emits twice when
  the base was patched first for the same group. The inner patch would have to know that an outer one
  is running on the same object in the same thread; not a small repair.

"""

#: planted bug -> rules that report it
SEEN = {
"hinted-nothing-means-object": "C34.fields",
"copy-drops-type-check": "C20.state",
"monitor-trims-extra-args": "C32.report",
"interrupts-wrapped": "C04.wrap",
"none-valued-key-counts-as-new": "C25.add",
"pause-survives-exception": "C16.paused",
"set-events-emptied-removed-sorted": "C26.reduce",
"falsy-active-item-kept": "C27.active",
"fast-nested-wrapped-again": "C04.wrap",
"move-noop-before-normalised": "C24.move",
"fast-paused-before-blocked": "C14.silent",
"positional-only-not-counted": "C09.range (missed at first: the rule is now an enumeration of signatures)",
"queued-limit-counts-rounds": "C05.queue",
"refused-fast-emission-counts": "C03.depth",
"relay-trims-to-signature": "C17.info",
"setitem-not-finalized": "C13.finalize",
"single-emission-unreduced": "C15.resume (missed at first by C15, caught by C16: case of one emission added)",
"throttle-kwargs-merged": "C29.latest",
"flush-ends-wait": "C29.pending (missed at first)",
"proxy-unset-equals-none": "C28.set (missed at first)",
"queued-callback-no-priority": "C07.given (missed at first by C07, caught by C19: rule added)",
"negative-ties-reversed": "C07.history",
"dict-announces-missing-removal": "C25.refused",
"copy-of-paused-runs": "C20.state",
"declared-name-overwritten": "C21.name",
"block-exclude-by-name-only": "C16.group",
"remove-selected-keeps-last": "C27.remove",
"builtin-bound-args-cut": "C10.args",
"toolz-drops-bound": "C10.forward",
"reduced-set-cancels": "C26.reduce",
"monitor-nested-ends-all": "C32.hook",
"unique-check-outside-lock": "C06.atomic",
"update-recurses-once": "C23.update",
"priority-flag-recomputed": "C07.history",
"queue-cleared-at-root-only": "C03.queue",
"disconnect-index-unlocked": "C06.atomic",
"setitem-key-by-str": "C11.key (missed at first: the key was only required to mention the key)",
"falsy-receiver-counts-as-dead": "C13.alive (missed at first: rule added)",
"paused-ignores-false-initial": "C16.paused",
"thread-compared-by-ident": "C19.direct (missed at first: equality of idents was taken as identity)",
"paused-skips-type-check": "C15.check, C01.check",
"connect-decorator-remembers-limit": "C08.reuse (missed at first: rule added)",
"queued-emission-uses-stale-slots": "C02.defer (missed at first)",
"queued-callback-keeps-receiver": "C12.weak, C19.fields",
"reversed-slice-deleted-front-first": "C24.delete",
"dict-compares-by-value": "C25.change",
"selection-empty-parent-ignored": "C27.parent",
"child-event-unpacks-any-info": "C30.emit",
"limit-counts-deepest-level": "C05.count, C05.limit, C03.depth, C02.latest",
"type-check-cannot-be-switched-off": "C09.off (missed at first: only the refusals were required; rule added)",
"group-evicted-only-if-uncached": "C35.evict",
"proxy-equal-value-silent": "C28.set (no answer at first: a comparison by value was not recognised as one)",
"proxy-delete-reported-first": "C28.delete",
"pending-cleared-after-call": "C29.pending",
"same-named-logger-left-connected": "C32.left",
"every-exception-wrapped": "C04.wrap",
"copy-forgets-priorities": "C20.state",
"old-value-overwritten": "C23.atomic",
"relay-origin-by-name": "C17.info",
"blocked-group-forgets-inner": "C16.group",
"partial-after-curried": "C10.args",
"unblock-on-resume": "C14.other",
"attrs-fields-from-init-only": "C33.each",
"connect-direct-unique-flag": "C18.members",
"silent-signal-counts-as-uncached": "C21.same",
"slotted-cache-cleared-together": "C21.evict",
"emitter-only-at-root": "C22.nested (missed at first: only one nested emission was followed)",
"frozen-pydantic-asked": "C33.frozen",
"frozen-fields-get-signals": "C34.frozen (missed at first: descriptors with options were not followed)",
"initvar-counts-as-field": "C33.dataclass, C34.skip",
"old-value-untyped": "C34.fields",
"same-object-counts-as-equal": "C31.operator (missed at first: only new values were assigned)",
"set-of-falsy-items-not-cleared": "C26.clear, C27.set",
"set-discard-by-identity": "C26.which",
"paused-emission-unchecked": "C01, C15.check",
"model-no-clear-on-equal": "C23.dependents (missed at first: no assignment that changes nothing came before another)",
"guess-first-dependency-only": "C23.declared (missed at first: one guessed property only)",
"connect-zero-limit-inferred": "C08.options, C09.nargs",
"direct-zero-limit": "C18.members",
"dereference-drops-kwargs": "C10.deref, C10.kwargs",
"slice-delete-skips-negative": "C24.delete (missed at first: which items a slice has was not decided; slices with known bounds are)",
"frozen-reset": "C23.reset (missed at first: the events of reset were not looked at)",
"single-decorated-queue": "C01.body, C02.defer (C02 at first silent)",
"group-unhashable-shared": "C35.own",
"unique-moves-to-end": "C08.unique",
"equal-callables-share-slot": "C11.key (missed at first: only what is compared equal was looked at, not what is asked for it)",
"failed-entry-queued-again": "C19.drain (missed at first: putting back was not considered)",
"evented-flag-swapped": "C35.decorator (missed at first: the decorator was not followed)",
"debounce-leading-restarts": "C29.debounce",
"classes-held-strongly": "C12.weak",
"copy-instance-kept-strong": "C21.weak, C12.owner",
"unblock-keeps-record": "C16.group",
"uniform-ignores-order": "C18.strict (missed at first: what counts as the same signature was not looked at)",
"max-depth-kept-after-error": "C03.mark",
"types-need-signature": "C09.types",
"method-function-not-finalized": "C13.finalize",
"last-of-equal-disconnected": "C11.one",
"blocked-still-checks": "C14.silent",
"typed-copy-shares-types": "C25.delete",
"queue-per-thread-name": "C19.direct",
"proxy-deleted-even-if-refused": "C28.delete",
"field-signal-emits-before-store": "C31.event",
"bulk-set-events-unordered": "C26.reduce (missed at first: a set was taken to keep its order)",
"only-first-type-allowed": "C25.types (missed at first: only one type was given)",
"private-members-not-monitored": "C32.found (missed at first: no member of the group had a private name)",
"untyped-field-keeps-default-operator": "C34.operator (missed at first: every field had a type)",
}

SEEDNOTE = """The bugs were written from the statements and the code, without looking at the rules; the first
run missed six of the first eleven and twenty-three of the later ones, after which the rules named above were
added or sharpened.
"""
