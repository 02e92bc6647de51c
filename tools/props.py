"""Source of properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""

S = "src/psygnal/_signal.py"
W = "src/psygnal/_weak_callback.py"
G = "src/psygnal/_group.py"
D = "src/psygnal/_group_descriptor.py"
Q = "src/psygnal/_queue.py"
M = "src/psygnal/_evented_model.py"
L = "src/psygnal/containers/_evented_list.py"
ED = "src/psygnal/containers/_evented_dict.py"
ES = "src/psygnal/containers/_evented_set.py"
SEL = "src/psygnal/containers/_selection.py"
SL = "src/psygnal/containers/_selectable_evented_list.py"
PX = "src/psygnal/containers/_evented_proxy.py"
TH = "src/psygnal/_throttler.py"
DC = "src/psygnal/_dataclass_utils.py"

PROPS = []
NA = []


def P(id, title, statement, over, quant, tests, files, mech, state=(), observe=(), level="other",
      note="", technique="path-sensitive interprocedural dataflow over the source"):
    PROPS.append(dict(
        id=id, title=title, statement=statement, over=over, quant=quant, tests=tests,
        files=files, mech=mech, state=state, observe=observe, level=level, note=note,
        technique=technique))


def N(id, title, statement, over, quant, tests, files, mech, reason):
    """A property that should hold but that this technique cannot decide here."""
    P(id, title, statement, over, quant, tests, files, mech)
    NA.append((id, reason))


SAMPLE = "The suite samples a few fixed cases; the property quantifies over {}."

P("C01", "An emission reaches every connected callback once, in order, unchanged",
  "Emitting an unblocked, unpaused signal calls every callback connected at that moment exactly "
  "once, front to back, with exactly the emitted arguments, and calling a signal is the same as "
  "emitting it. Requested argument-count and type checks run before anything else happens: a "
  "refused emission raises, calls nobody and leaves no trace. The fast emission path delivers "
  "exactly as the ordinary one does.",
  ["histories", "inputs", "configurations"],
  "every number of callbacks, argument tuple, emission mode, check flag and signal state",
  SAMPLE.format("every slot list, mode and history of connects, blocks and nested emissions"),
  [S], [("emission entry points", S + " SignalInstance.emit, emit_fast, __call__"),
        ("delivery loops of the three modes", S + " SignalInstance._run_emit_loop*")],
  state=[("slot list", "connected callbacks in delivery order", S + " SignalInstance._slots"),
         ("emission queue", "argument tuples being delivered", S + " SignalInstance._emit_queue")],
  observe=["calls received by connected callbacks", "exceptions raised by emit"],
  note="callback bodies are arbitrary calls; a nested emission is assumed to keep the property "
       "(induction over nesting)")
P("C02", "Each re-emission mode keeps its documented delivery order",
  "With ordinary (not fast) emissions: in the immediate mode an emission made by a callback is delivered at once, before the callbacks "
  "still waiting for the outer one; in the queued mode it is delivered only after the running one "
  "has reached every callback, in the order emitted; in the latest-only mode the callbacks still "
  "waiting for the outer emission are skipped. Only the latest-only mode skips anything. A copied "
  "or unpickled signal keeps its mode.",
  ["histories", "configurations"],
  "every nesting pattern of emissions from callbacks, every mode",
  SAMPLE.format("every nesting of emissions and every number of callbacks"),
  [S], [("mode dispatch", S + " SignalInstance.__init__, _run_emit_loop, __setstate__"),
        ("mode loops", S + " SignalInstance._run_emit_loop_immediate/_queued/_latest_only")],
  observe=["order and arguments of callback calls under nested emission"])
P("C03", "A finished or failed emission leaves no trace",
  "When an outermost emission ends, normally or through any exception, nothing of it is left "
  "behind: no pending arguments, no changed nesting depth, no held lock, no reference to the "
  "emitted arguments or to a callback, no stale current emitter "
  "or sender. The next emission behaves as on a fresh signal. A nested emission restores the "
  "sender and depth of the one around it.",
  ["fault_sequences", "histories"],
  "every point at which a callback may raise (including KeyboardInterrupt), every nesting depth",
  SAMPLE.format("every callback position and exception kind at which an emission can stop"),
  [S], [("emission bracket", S + " SignalInstance._run_emit_loop"),
        ("current emitter", S + " Signal._emitting, Signal.current_emitter")],
  observe=["behaviour of the next emission", "Signal.current_emitter(), Signal.sender()"])
P("C04", "Exceptions in callbacks surface exactly as documented",
  "An ordinary exception raised by a callback stops the emission and leaves it as EmitLoopError "
  "naming the signal, with the original as its cause; one already wrapped by a nested emission "
  "passes through unwrapped, RecursionError stays RecursionError, and exceptions outside Exception "
  "pass unchanged. This does not depend on the texts of the exception, of the arguments or of the object: taking "
  "them may fail. No callback exception is ever swallowed.",
  ["fault_sequences", "inputs"],
  "every exception type, raised by any callback at any nesting level, through every emission method",
  SAMPLE.format("every exception class and nesting level"),
  [S, "src/psygnal/_exceptions.py"],
  [("wrapping", S + " SignalInstance._run_emit_loop"),
   ("the wrapper", "src/psygnal/_exceptions.py EmitLoopError")],
  observe=["exception type, message and __cause__ seen by the emitter"])
P("C05", "Runaway re-emission is stopped at the recursion limit",
  "However callbacks re-emit, an emission nested more than the fixed limit deep raises "
  "RecursionError before calling anyone, and so does a queued-mode emission whose backlog exceeds "
  "that limit. Nesting below the limit is never refused.",
  ["histories"], "every nesting depth and every chain of re-emitting callbacks",
  SAMPLE.format("every nesting depth"),
  [S], [("depth count", S + " SignalInstance._run_emit_loop"),
        ("backlog bound", S + " SignalInstance._run_emit_loop_queued")],
  observe=["RecursionError from emit"])
P("C06", "Connecting, disconnecting and emitting are mutually atomic across threads",
  "Every operation that changes the callbacks connected to a signal does so while holding that "
  "signal's lock, and searches and changes within one critical section, so concurrent connects and "
  "disconnects never lose or duplicate each other. An ordinary (not fast) emission calls the "
  "callbacks while holding the lock, which is re-entrant and is also present on copied and unpickled signals.",
  ["schedules"], "every interleaving of threads using one signal",
  "Tests run few interleavings; the property quantifies over all of them.",
  [S, G], [("lock scope", S + " SignalInstance.connect, connect_setattr, connect_setitem, "
            "disconnect*, emit"), ("relay wiring", G + " SignalRelay._append_slot, _remove_slot")],
  state=[("lock", "re-entrant lock of the signal", S + " SignalInstance._lock")],
  observe=["the set of connected callbacks after concurrent use"],
  note="lock discipline (which lock is held at each access), not a proof about the interpreter's "
       "memory model; one finalizer access is a listed known finding",
  technique="lock-set dataflow over all paths of every public method")
P("C07", "Callbacks run by descending priority, ties in connection order",
  "At every moment the connected callbacks are ordered by descending priority, and callbacks of "
  "equal priority by the order in which they were connected, whatever mix of connect methods, "
  "priorities (positive, negative, none) and disconnections led there.",
  ["histories", "inputs"], "every sequence of connects with any priorities and disconnects",
  SAMPLE.format("every sequence of priorities"),
  [S], [("ordered insertion", S + " SignalInstance._append_slot")],
  observe=["order of callback calls"],
  note="inductive: each registering path is shown to keep a list that was ordered ordered")
P("C08", "connect registers the callback with exactly the options given",
  "A connect call that returns has registered exactly one callback made from the given slot, with "
  "the given argument limit (or the one the slot's signature accepts), priority, dead-reference "
  "policy and thread, and returns the slot, also in decorator form and through a group. With "
  "unique=True an already connected slot is not connected again, with unique='raise' it is refused, "
  "and otherwise it is connected once more. This does not depend on the texts of the bound arguments: "
  "taking them may fail.",
  ["inputs", "configurations"], "every combination of options, both call forms, every signal class",
  SAMPLE.format("every combination of options"),
  [S, G], [("connect", S + " SignalInstance.connect, connect_setattr, connect_setitem"),
           ("group forwarding", G + " SignalGroup.connect, connect_direct")],
  observe=["callback calls and their arguments", "return value of connect"])
P("C09", "A refused connection raises and changes nothing",
  "Non-callables, slots needing more positional arguments than the signal provides (when argument "
  "checking is on), slots with mismatching annotations (when type checking is on) and targets "
  "lacking the attribute or item assignment are refused by an exception, for every way checking is "
  "switched on (argument or signal default); a check switched off for the connection refuses nothing. "
  "A connect call that raises leaves the signal exactly as it was.",
  ["inputs", "configurations"], "every slot signature and every setting of the check options",
  SAMPLE.format("every slot signature and option combination"),
  [S], [("checks", S + " SignalInstance.connect, _check_nargs, _acceptable_posarg_range, "
         "_parameter_types_match")],
  observe=["exceptions from connect", "len(signal)"],
  note="that two annotations match is left to issubclass (opaque)")
P("C10", "A callback gets its bound arguments, then the delivered ones up to its limit",
  "Whatever kind of slot a callback was made from (function, functools.partial, bound method, method "
  "of a built-in type, curried function, callable object, attribute or item setter), delivering an "
  "emission to it calls the target exactly once with the arguments bound in the slot, followed by the "
  "delivered arguments cut to the callback's limit (None: all of them), and the bound keyword "
  "arguments; setters assign the delivered value itself when there is exactly one and the tuple "
  "otherwise. Calling the callback object does the same, its dereferenced form is the slot with its "
  "bound arguments, and every kind of callback carries the priority it was given.",
  ["inputs"], "every kind of slot, bound and delivered arguments, limits",
  SAMPLE.format("every kind of slot with every combination of bound arguments and limits"),
  [W], [("delivering", W + " WeakCallback.__call__ and the cb methods of its subclasses"),
        ("construction", W + " weak_callback"), ("dereferencing", W + " dereference")],
  observe=["arguments each target receives"])
P("C12", "Signals hold methods and objects weakly, and functions strongly",
  "A connected bound method, setter or callable object is not kept alive by the connection (nor by "
  "any field of the callback made for it), and a signal does not keep its owner alive. A plain function is kept alive unless strong_func is "
  "False. For an object that does not support weak references the on_ref_error choice decides: "
  "'raise' refuses it, 'warn' warns and keeps it, 'ignore' keeps it silently.",
  ["inputs", "histories"], "every kind of slot and every on_ref_error choice",
  SAMPLE.format("every kind of slot"),
  [W, S], [("weak references", W + " WeakCallback._try_ref and the constructors of its subclasses"),
           ("owner", S + " SignalInstance._instance_ref")],
  observe=["whether a weak reference to the connected object dies"],
  note="references held by the callback and the signal; arguments the user binds himself are his")
P("C13", "A dead callback is removed once, and calls nothing",
  "When the object (or function) of a weakly held callback dies, the callback is removed from its "
  "signal exactly once, without an exception even if it was already disconnected. Delivering to a "
  "dead callback, or calling it, raises ReferenceError and calls nothing; dereferencing it gives None.",
  ["histories", "inputs"], "every kind of weakly held slot, any order of deaths and disconnects",
  SAMPLE.format("every kind of slot dying at every point"),
  [W, S], [("finalizer", W + " _kill_and_finalize"), ("wiring", S + " connect*, _try_discard"),
           ("dead targets", W + " cb, dereference, __call__")],
  observe=["len(signal) after the object died", "exceptions"])
P("C11", "disconnect removes exactly the connection asked for",
  "disconnect() without a slot removes every callback; with a slot it removes exactly one "
  "connection, namely one made with that slot, and leaves the others alone. A slot that is not "
  "connected changes nothing and raises only when missing_ok is False. Two callbacks count as the "
  "same connection only when they target the same object and the same function, attribute or key, "
  "and membership tests agree with what disconnect would find.",
  ["histories", "inputs"], "every history of connections and every slot asked for",
  SAMPLE.format("every history of connects and disconnects"),
  [S, G, W], [("removal", S + " SignalInstance.disconnect, disconnect_setattr, disconnect_setitem, "
               "_remove_slot, _slot_index"), ("identity of callbacks", W + " WeakCallback.__eq__, "
                                              "object_key")],
  observe=["len(signal), slot in signal", "callback calls after disconnect"])
P("C19", "Callbacks connected to a thread run on that thread, once, in order",
  "A callback connected with thread=T runs at once when the emitting thread is T; otherwise nothing is called "
  "and exactly one entry with the emitted arguments is added to T's queue. emit_queued() called for T (by "
  "default the current thread) calls every entry exactly once in the order of emission, never "
  "blocks, and turns an exception into EmitLoopError leaving the later entries queued. None and "
  "'main' mean the main thread, 'current' the connecting one, and other values that are not threads are "
  "refused. Threads never lose entries to each other.",
  ["schedules", "inputs"], "every interleaving of emitting and draining threads",
  SAMPLE.format("every interleaving of emitting and draining threads"),
  [Q], [("queueing", Q + " QueuedCallback.cb"), ("draining", Q + " emit_queued"),
        ("Qt timer", "src/psygnal/qt.py start_emitting_from_queue")],
  state=[("queues", "thread to queue of entries", Q + " QueuedCallback._GLOBAL_QUEUE")],
  observe=["thread and order in which callbacks run"],
  note="atomicity is checked for creating queues; queue.Queue itself is trusted")
P("C14", "A blocked signal does nothing when emitted",
  "While a signal (or a group's relay) is blocked, emitting it in any way, paused or not and with "
  "or without checks, calls nobody, collects nothing, raises nothing, and leaves it blocked. Only "
  "block and unblock change whether it is blocked: after one unblock emissions are delivered "
  "again, whatever the number of blocks, and pausing, resuming, connecting or disconnecting does not "
  "unblock it.",
  ["histories", "inputs"], "every history of block, unblock, pause, resume and emissions",
  SAMPLE.format("every history of blocking, pausing and emitting"),
  [S, G], [("emission methods", S + " SignalInstance.emit, emit_fast, __call__"),
           ("blocking", S + " SignalInstance.block, unblock")],
  state=[("blocked flag", "emissions are ignored", S + " SignalInstance._is_blocked")],
  observe=["callback calls", "exceptions from emit"])
P("C15", "Emissions while paused are collected and delivered once, in order, on resume",
  "While a signal (or a group's relay) is paused, an emission calls nobody and its arguments are kept in order of "
  "emission, unless a requested check refuses them. Resuming delivers each collected emission once, in that order; "
  "with a reducer it delivers exactly one emission, reduced from all of them in order, starting "
  "from the initial value if one was given (a reducer with one parameter gets the whole list). "
  "It delivers nothing, and calls no reducer, when nothing was collected, and what was collected "
  "is gone afterwards even with nobody connected. When the first callback runs, the signal is already unpaused with an "
  "empty queue, so callbacks that emit or pause again lose and repeat nothing.",
  ["histories", "inputs"], "every history of pause, emissions and resume",
  SAMPLE.format("every history of pauses, emissions and resumes"),
  [S, G], [("collecting", S + " SignalInstance.emit, emit_fast; " + G + " SignalRelay._slot_relay"),
           ("resuming", S + " SignalInstance.resume")],
  state=[("queue", "argument tuples collected while paused", S + " SignalInstance._args_queue")],
  observe=["callback calls on resume"])
P("C16", "Scoped block and pause restore the state they found",
  "Inside blocked() and paused() the signal is blocked or paused; when the scope is left, normally or "
  "by an exception, it is blocked or paused exactly if it was before, so leaving an inner scope "
  "does not end an outer one. Leaving the outermost paused() resumes with the reducer and initial value it "
  "was given. blocked() on a group blocks the relay and every member but the excluded ones (given "
  "by name or as signal), and restores each member to its own former state.",
  ["histories", "inputs"], "every nesting of scopes, prior state and way of leaving",
  SAMPLE.format("every nesting of scopes and every prior state"),
  [S, G], [("scopes", S + " _SignalBlocker, _SignalPauser"),
           ("group scope", G + " SignalRelay.block, unblock, blocked")],
  state=[("saved states", "member name to blocked flag before the group was blocked",
          G + " SignalRelay._sig_was_blocked")],
  observe=["callback calls inside and after the scope"])
P("C17", "A group's relay passes on every emission of its members once, with its origin",
  "While the relay of a group has callbacks, each emission of a member calls each of them once, with "
  "one EmissionInfo holding the member that was emitted and exactly the arguments emitted. The relay "
  "listens to every member from the moment its first callback is connected, once each whatever the "
  "number of callbacks, without argument limit or thread, stops listening to all of them when its "
  "last callback is removed (by index, by value or all at once), and listens again when one is added later.",
  ["histories", "inputs"], "every history of callbacks added to and removed from the relay",
  SAMPLE.format("every history of adding and removing callbacks of a group"),
  [G], [("relaying", G + " SignalRelay._slot_relay"),
        ("listening", G + " SignalRelay._append_slot, _remove_slot, _connect_relay, _disconnect_relay")],
  observe=["callback calls and their EmissionInfo", "len(member)"],
  note="emissions with emit_fast do not announce the emitting signal and are left out")
P("C18", "Group-wide operations act on every member of the group",
  "Each operation of a group does what the same operation of its relay does, with every option given, and "
  "returns its result. connect_direct connects the slot to every member with the options given; "
  "disconnect removes the slot from every member and from the relay, and raises exactly when "
  "missing_ok is False and the slot was connected nowhere. A new group has one signal for each declared "
  "name, its relay is made from those signals and the owner, and len, iteration, membership and item "
  "access speak of the same signals. A subclass has its base's signals and aliases, overridden by its own. Its "
  "signals are uniform exactly when all take arguments of the same types, and a strict class is refused exactly "
  "when they are not.",
  ["inputs", "histories"], "every group, slot, set of options and class hierarchy",
  SAMPLE.format("every combination of options, members and slots"),
  [G], [("pass-through", G + " SignalGroup.connect, connect_direct, disconnect, block, ..."),
        ("relay", G + " SignalRelay.connect_direct, disconnect"),
        ("construction", G + " SignalGroup.__init__, __init_subclass__")],
  state=[("members", "name to signal", G + " SignalGroup._psygnal_instances")],
  observe=["connections of every member", "return values and exceptions"])
P("C20", "A copied or pickled signal keeps its state",
  "Copying or unpickling a signal, a group relay or a strongly held callback gives one with every field "
  "of the original (description, options, flags, priority, alive, and the collected emissions in a list of its own) "
  "except that a signal gets a lock of its own and that no emission is running on it, whatever was running on the "
  "original; it delivers in the original's reemission mode, to its own callbacks, and has the strongly held "
  "callbacks of the original in their order, each of which disconnect finds by its function even in another "
  "process; it belongs to the object the original belonged to. A copied "
  "relay that has callbacks listens to its signals. Deep-copying an object that has a signal group gives "
  "a new group bound to the copied object.",
  ["configurations", "histories"], "every configuration of a signal, relay or callback at the time of the copy",
  SAMPLE.format("every combination of options and every set of connections copied"),
  [S, G, W], [("state", S + " SignalInstance.__getstate__, __setstate__"),
              ("relay state", G + " SignalRelay.__getstate__, __setstate__"),
              ("group", G + " SignalGroup.__deepcopy__"),
              ("callback state", W + " StrongFunction.__getstate__, __setstate__")],
  observe=["attributes and behaviour of the copy"])
P("C21", "A declared signal gives each object one signal with the declared options",
  "Reading a Signal declared on a class from an object gives a signal with the declared signature and "
  "every declared option, named as given or after the class attribute, and gives the same one on every "
  "later read; an object whose attributes cannot be set has it remembered until the object goes, so that a "
  "new object at the same address never gets the old one. The signal does not keep its object alive. On "
  "the class the declaration itself is returned.",
  ["histories", "configurations"], "every set of declared options, class layout and history of object lifetimes",
  SAMPLE.format("every declaration, class layout and history of object creation and collection"),
  [S], [("descriptor", S + " Signal.__get__, __set_name__, _create_signal_instance, _cache_signal_instance"),
        ("owner", S + " SignalInstance._instance_ref, instance")],
  observe=["the signal read from an object and its attributes"])
P("C22", "current_emitter and sender tell who is delivering",
  "While an ordinary emission runs a callback, Signal.current_emitter() is the signal delivering to it and "
  "Signal.sender() the object it belongs to, also after the callback made another signal emit; what is "
  "emitting is known per thread, and outside of emissions there is no emitter and no sender.",
  ["schedules", "histories"], "every nesting of emissions and every number of threads",
  SAMPLE.format("every nesting of emissions and schedule of threads"),
  [S], [("emitting", S + " Signal._emitting, current_emitter, sender")],
  observe=["Signal.current_emitter() and Signal.sender() in callbacks"],
  note="emissions with emit_fast do not announce the emitting signal and are left out")
P("C31", "Assigning a field of an evented object emits its change once",
  "With the patched __setattr__ of an evented class, assigning a field stores the value once, whatever the "
  "listeners; when the field's signal has listeners and the comparison set for the field finds the new and "
  "the old value different, that signal emits (new value as stored, old value) once, and it emits nothing "
  "when they are equal. A comparison that raises does not make the assignment raise. The signal is the one "
  "of the field's alias; a field whose alias is None, or that has no signal, emits nothing. A __setattr__ "
  "patched twice emits once, and the order in which a class and its base are patched, with or without "
  "aliases, changes nothing.",
  ["inputs", "configurations"], "every pair of values, equality operator, alias map and patched class",
  SAMPLE.format("every value, comparison outcome and alias configuration"),
  [D], [("assignment", D + " evented_setattr, _changes_emitted, get_signal_from_field"),
        ("comparison", D + " _check_field_equality")],
  observe=["value stored", "emissions of the field's signal"],
  note="what the comparison itself answers for two values is taken as given")
P("C34", "An evented dataclass has one signal for each of its mutable fields",
  "The group of an evented dataclass-like class has one signal for each field, named by the field's alias "
  "(given as mapping, as function, or by the group class) or else by the field, taking the field's type for "
  "the new and for the old value; class variables, fields whose alias is None and frozen fields of pydantic "
  "models have none, and no field replaces a signal the group class defines. The group knows the alias of "
  "every field that has one, and the equality operators given are recorded for their fields.",
  ["inputs", "configurations"], "every set of fields, aliases and operators",
  SAMPLE.format("every combination of fields, aliases and operators"),
  [D, DC], [("signals of fields", D + " _build_dataclass_signal_group"),
            ("fields", DC + " iter_fields")],
  observe=["names and signatures of the group's signals", "comparison used on assignment"])
P("C33", "The fields of every kind of dataclass are found, with their types",
  "Classes of every supported kind (dataclass, pydantic model, attrs class, msgspec Struct) have each of their "
  "fields, inherited ones included, listed once with its name and declared type (of the most derived declaration); "
  "class variables and InitVars of dataclasses are not fields, frozen fields of pydantic models are left out unless "
  "asked for, and a class of no such kind has no fields.",
  ["inputs", "configurations"], "every class of every kind, with any fields and bases",
  SAMPLE.format("every kind of class and field"),
  [DC], [("fields", DC + " iter_fields")],
  observe=["fields listed", "signals of an evented class and their types"])
P("C35", "Each evented object has one group of its own",
  "Reading the events of an evented object gives a group made for that object, with the signals of the class "
  "given, and gives the same group on every later read; two objects never share one. A remembered group, or "
  "group class, is forgotten with its object, so that a new one at the same address never gets it; with "
  "cache_on_instance=False nothing is stored on the object. On the class the descriptor itself is returned. "
  "__setattr__ of an evented class is replaced once, not again in subclasses, and never with "
  "patch_setattr=False.",
  ["histories", "configurations"], "every history of object and class lifetimes and every configuration",
  SAMPLE.format("every history of object and class creation and collection"),
  [D], [("descriptor", D + " SignalGroupDescriptor.__get__, _get_signal_group, _do_patch_setattr")],
  state=[("groups", "group per object id and group class per owner", D + " SignalGroupDescriptor")],
  observe=["the group read from an object"])
P("C23", "An EventedModel emits each change of a field or settable property once",
  "Assigning a field of an EventedModel stores the value and its signal emits the stored value once exactly "
  "when the comparison registered for it finds a change. Then each dependent property with listeners whose own "
  "value changed emits its new value once. A property setter that assigns several fields emits only after all "
  "are assigned, each at most once; a field assigned by a callback emits too; after a setter or callback that "
  "failed the next assignment emits as usual. update() assigns every value (nested models in place unless "
  "recurse is off) with the group relay paused; reset() assigns the defaults of fields that are not frozen "
  "and resets nested models. Models are equal exactly when all their fields are. Each field that is not frozen, "
  "and each property setter allowed, has a signal; frozen fields have none.",
  ["histories", "inputs", "configurations"],
  "every value, comparison outcome, set of dependents, setter and history of assignments",
  SAMPLE.format("every value, comparison outcome, dependency map and sequence of assignments"),
  [M], [("assignment", M + " EventedModel.__setattr__ and the variants installed by EventedMetaclass"),
        ("deferred comparison", M + " EventedModel._check_if_values_changed_and_emit_if_needed"),
        ("class creation", M + " EventedMetaclass.__new__, _get_field_dependents")],
  state=[("pending changes", "old values of fields and dependents being assigned", M + " EventedModel")],
  observe=["emissions of the model's signals", "values of its fields"],
  note="pydantic's own storing, conversion and validation are taken as given; branches for pydantic 1 are "
       "not analysed")
P("C24", "An EventedList announces every change around it, with the right index",
  "insert() emits inserting(index), stores, emits inserted(index, value). Assigning an item or a slice stores it, "
  "then emits changed(key, old, new), and does nothing when the item is the same object. Deleting emits, for each "
  "item, from the last to the first, removing(i), removes it, emits removed(i, item), with i counted from the "
  "front; an index out of range is refused and nothing changes. move() emits moving(src, dest), moves the item, "
  "emits moved(src, new index, item), reordered(); it does nothing and returns False when the item would stay "
  "where it is; negative indices count from the end. move_multiple() and reverse() emit reordered once, "
  "afterwards. No public method changes the data without an event afterwards.",
  ["inputs", "histories"], "every list, index, slice and value",
  SAMPLE.format("every length, index (negative and out of range too), slice and value"),
  [L], [("list", L + " EventedList.insert, __setitem__, __delitem__, move, move_multiple, reverse")],
  state=[("data", "the items", L + " EventedList")],
  observe=["the signals of EventedList.events", "the items"],
  note="the arithmetic of move_multiple over several sources is not claimed")
P("C25", "An EventedDict announces every change around it",
  "Storing at a new key emits adding(key), stores, emits added(key, value). Storing at a known key emits "
  "changing(key), stores, emits changed(key, old, new), and does nothing when the value is the same object. "
  "Deleting emits removing(key), removes, emits removed(key, value); a missing key raises and emits nothing. A "
  "value of a type not allowed raises TypeError, is not stored and not announced as stored. copy() gives a new "
  "dict with the same items and type check. No public method changes the data without an event afterwards.",
  ["inputs", "histories"], "every dict, key, value and set of allowed types",
  SAMPLE.format("every key, value and history of changes"),
  [ED], [("dict", ED + " EventedDict.__setitem__, __delitem__; TypedMutableMapping")],
  state=[("data", "the items", ED + " TypedMutableMapping")], observe=["the signals of EventedDict.events"])
P("C26", "An EventedSet emits exactly the items added and removed",
  "add() stores an item that is not in the set, then emits items_changed((item,), ()); discard() removes one that "
  "is, then emits items_changed((), (item,)); otherwise they do nothing. clear() removes all and emits them as "
  "removed, nothing when the set is empty. update, difference_update, intersection_update and "
  "symmetric_difference_update add and remove the items their name says, handle each item once, also when given "
  "the set itself, repeated items or an iterator, and emit once: everything added and everything removed, in "
  "order. copy, union, difference, intersection and symmetric_difference give a new set with the right items and "
  "change nothing. Ordered sets keep insertion order.",
  ["inputs", "histories"], "every set, item and collection of items",
  SAMPLE.format("every set and every argument, the set itself and iterators included"),
  [ES], [("sets", ES + " _BaseMutableSet, EventedSet, OrderedSet, _reduce_events")],
  state=[("data", "the items", ES + " _BaseMutableSet")], observe=["events.items_changed", "the items"])
P("C27", "A selection, its active item and its list agree",
  "After every change of a Selection its active item is the selected item when exactly one is selected, else None, "
  "and events.active tells each new active item. Making an item active selects it and unselects the rest, and makes "
  "it current; None clears. clear() makes nothing current unless told to keep it. An item not in the parent is "
  "refused and nothing changes. toggle() adds or removes. Assigning a selection selects exactly the new items, also "
  "from an iterator. In a SelectableEventedList an item that was removed, or replaced and is gone, is unselected; "
  "an inserted item becomes active unless switched off; select_next and select_previous move by a step, wrapped "
  "around or kept within the list, from any state; remove_selected removes and returns every selected item.",
  ["inputs", "histories"], "every selection, list and order of operations",
  SAMPLE.format("every selection, list and operation"),
  [SEL, SL], [("selection", SEL + " Selection, Selectable"), ("list", SL + " SelectableEventedList")],
  state=[("active", "active and current item", SEL + " Selection")],
  observe=["selection.active", "selection._current", "events.active", "events.items_changed"],
  note="events seen between the steps of one operation are not claimed")
P("C30", "Child events of an EventedList follow its items",
  "With child_events, the signals of each item that enters an EventedList by insertion or by assigning an index or "
  "a slice are connected, and those of each item that leaves by deletion or replacement are disconnected; without "
  "child_events nothing is connected. When a signal of an item emits, the list emits child_event(index, item, "
  "signal, args) once: the index of that very item, the item, the signal that was emitted, also when it came "
  "through the relay of the item's group, and all its arguments.",
  ["histories", "inputs"], "every history of insertions, replacements and removals",
  SAMPLE.format("every history of the list and every signal of its items"),
  [L], [("child events", L + " EventedList._connect_child_emitters, _disconnect_child_emitters, "
         "_reemit_child_event")],
  observe=["EventedList.events.child_event"],
  note="which signals an object has is decided by iter_signal_instances and not part of this")
P("C28", "An evented object proxy announces every change made through it",
  "Setting an attribute or item through an EventedObjectProxy sets it on the wrapped object once, then announces it "
  "exactly once with the name or key and the value now there, when that is another object than before, and not "
  "otherwise; an item that was not there before can be set too. Deleting deletes once, then announces it once. Each "
  "in-place operator is applied once with its operand, announced once as in_place(operator name, operand), and gives "
  "the result. Calling a callable proxy announces the arguments once, calls the object once with them and returns "
  "its result. A failed change is not announced. Each proxy has one group of its own, even when the objects wrapped "
  "are the same or equal, and it is dropped when the proxy dies.",
  ["inputs", "histories"], "every wrapped object, name, key, value and operator",
  SAMPLE.format("every object, key present or not, and every history of proxies being made and dying"),
  [PX], [("proxy", PX + " EventedObjectProxy, EventedCallableObjectProxy")],
  state=[("groups", "the group of each proxy", PX + " _OBJ_CACHE")],
  observe=["the signals of proxy.events", "the wrapped object"],
  note="what wrapt's own methods do to the wrapped object is assumed; objects without in-place operators are not "
       "claimed (wrapt makes a plain proxy of the result)")
P("C29", "A throttled or debounced function runs with the latest call, once per wait",
  "A call of a throttled or debounced function is remembered with its arguments before anything else; the function "
  "only ever runs with the arguments of the latest call. With no wait under way, a leading call runs it at once, "
  "exactly once, a trailing one starts the wait; a call during the wait does not run it. A throttled call during "
  "the wait leaves the timer alone; a debounced one starts the wait again. When the wait ends, and on flush, the "
  "pending call runs exactly once and is no longer pending; nothing runs when none is, and flushing then leaves the wait alone. Every run starts a new wait. "
  "cancel runs nothing, forgets the pending call and ends the wait, so the next call counts as the first. The "
  "decorators pass function, timeout and edge on in both forms. The result has the function's name, docstring and "
  "signature.",
  ["histories", "configurations"], "every history of calls, expiries, flushes and cancels, both policies",
  SAMPLE.format("every order of calls, timer expiries, flush and cancel"),
  [TH], [("timer logic", TH + " _ThrottlerBase, Throttler, Debouncer"), ("decorators", TH + " throttled, debounced")],
  state=[("pending call", "latest arguments and whether they wait to be run", TH + " _ThrottlerBase")],
  observe=["calls of the wrapped function", "the timers started and cancelled"],
  note="each method is decided for one caller at a time; races of the timer thread with a caller, and real elapsed "
       "time, are not claimed")
P("C32", "Monitoring reports every emission while it lasts, and nothing after",
  "iter_signal_instances finds every signal that is a public attribute of an object once, a group by its relay, "
  "private ones only on request; of a group, all its members. Inside monitor_events(obj, logger) each emission of a "
  "signal so found is reported to the logger exactly once as EmissionInfo(signal, args), whatever callable taking "
  "one argument the logger is; after the block, however it ends, nothing is. Without an object the logger gets "
  "every emission of any signal that is made by emit or delivered on resume, once, none while it is blocked or "
  "paused, and what was installed before is back after the block, however it ends.",
  ["inputs", "histories"], "every object, logger and way to leave the block",
  SAMPLE.format("every object, every kind of logger and every way out of the block"),
  ["src/psygnal/utils.py", S], [("monitor", "src/psygnal/utils.py monitor_events, iter_signal_instances"),
                                 ("hook", S + " SignalInstance.emit, resume")],
  state=[("hook", "the logger for all signals", S + " SignalInstance._debug_hook")],
  observe=["calls received by the logger"],
  note="an object whose attributes raise anything but AttributeError or FutureWarning is not claimed")
N("N01", "Throttling keeps real time",
  "At least `interval` milliseconds pass between two runs of a throttled function, and a debounced one runs no "
  "earlier than `interval` after the latest call and not much later.",
  ["schedules"], "every timing of calls and thread schedule", "Tests sleep and count.",
  [TH], [("timer", TH + " _ThrottlerBase._start_timer")],
  "elapsed time and the scheduling of threading.Timer are runtime quantities; the source only shows that the right "
  "interval is passed (C29)")
N("N02", "move_multiple puts the moved items where asked",
  "EventedList.move_multiple leaves the moved items next to each other, in the order given, at the destination, and "
  "the other items in their old order.",
  ["inputs"], "every list, set of indices and destination", "A table of permutations.",
  [L], [("permutation", L + " EventedList._move_plan")],
  "which permutation results depends on index arithmetic over unbounded lists and index sets; deciding it needs a "
  "solver or proof, not an analysis of the source (events and kept items are decided by C24)")
N("N03", "Values compared equal are treated as unchanged",
  "Comparing an old with a new field value gives the answer the field's equality operator documents, for arrays, "
  "dask objects and user types alike.",
  ["inputs"], "every pair of values", "A few numpy and dask values.",
  [D, M], [("comparison", D + " _check_field_equality")],
  "the result is computed by code of the values' own types; only that the configured operator decides is visible "
  "in the source (C23, C31, C34)")
N("N04", "Emitting stays fast",
  "The cost of an emission is linear in the number of callbacks and independent of how many were connected before.",
  ["histories"], "every history of connects and emissions", "Benchmarks on a few sizes.",
  [S], [("loop", S + " SignalInstance._run_emit_loop")],
  "run time is not decided by this family here (user callbacks dominate it)")
