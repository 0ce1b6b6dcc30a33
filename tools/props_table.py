SCHED_TESTS = "The existing tests run one goroutine schedule per machine and load, with at most two clients; %s"

def A(files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    return a

def Q(over, text):
    return {"over": over, "text": text}

DC = "directive/controller/"
COREFILES = [DC + f for f in ("controller.go", "instance.go", "resolver.go", "resolver-handler.go", "handler.go", "reference.go")]
COREOVER = ["schedules", "inputs", "histories", "fault_sequences"]
COREQ = "every interleaving of concurrent clients, handlers and resolvers, every script of operations, and stalls, errors, panics, slow cancellation and clock jumps in callbacks"
CORENOTE = ("Seeded search over schedules at statement granularity with the real directive controller and scripted clients, handlers and resolvers; "
            "a clean run is evidence over the explored schedules, not a proof. Trusts the Go compiler, the simulator's scheduler and its fake clock.")

TAILNOTE = " A clean run is evidence over the explored schedules, not a proof."
HELPNOTE = "Seeded search with the real bus helpers, in-memory bus and directive controller; resolvers and consumers are scripted." + TAILNOTE
BUSNOTE = "Seeded search with the real in-memory bus and directive controller; controllers and clients are scripted." + TAILNOTE

PLUGNOTE = "Seeded search with the real plugin loader, watcher, plugin resolver, loader, resolvers and bus on real files in a scratch directory; file system notifications and the opening of shared libraries are stand-ins (Go plugins cannot be unloaded or built in the simulator)."
PROPS = [
 dict(id="C01", title="Equivalent directives share one instance; newer ones supersede",
  statement="Adding a directive that is equivalent to one that is alive returns a reference to that live instance, so two instances of equivalent directives are never alive or listed at once, and a directive is never merged into an instance it is not equivalent to. A directive that supersedes the existing one replaces it: the old instance is disposed and the caller is attached to an instance at least as new as its own. Adding always returns a usable instance and reference, whatever other clients, handlers and removals are doing.",
  quantifier=Q(COREOVER, COREQ),
  why_tests_cant="De-duplication races with disposal, supersession and handlers that run without the lock; the tests add directives from one goroutine.",
  anchors=A(COREFILES[:2], [("deduplication and supersession", DC + "controller.go AddDirective")], [("directive list", "the live instances")], ["AddDirective results", "GetDirectives", "instance contexts"]),
  note=CORENOTE),
 dict(id="C02", title="A directive lives exactly as long as it is referenced",
  statement="A directive is never disposed while a counted (non-weak) reference is held, unless it is closed, superseded or the bus shuts down, and not before its grace period since the last counted release has elapsed; once no counted reference is left it is disposed and delisted in bounded time. On disposal every reference handler that is not released and every dispose callback that is not released is told exactly once; nothing is told of a disposal while the directive is alive. After a close call returns, the directive is dead.",
  quantifier=Q(COREOVER, COREQ),
  why_tests_cant="The grace timer, releases, new references, idle transitions and closes race with each other; tests see one order with real sleeps.",
  anchors=A(COREFILES, [("reference counting and dispose timer", DC + "instance.go, " + DC + "reference.go")], [("reference list, dispose timer", "who keeps the instance alive")], ["instance context", "HandleInstanceDisposed", "dispose callbacks", "GetDirectives"]),
  note=CORENOTE),
 dict(id="C03", title="Every handler is offered every live directive exactly once",
  statement="Every directive that stays alive is offered to every registered handler exactly once, whether the handler was registered before, after or while the directive was added. No handler is ever offered the same directive instance twice. Errors and panics of one handler do not keep the directive from the others.",
  quantifier=Q(COREOVER, COREQ + "; handlers that fail, panic, block, or add references and callbacks while being asked"),
  why_tests_cant="Registration and directive addition overlap in ways no test schedules.",
  anchors=A([DC + "controller.go", DC + "instance.go", DC + "handler.go"], [("offering directives", DC + "controller.go AddDirective, AddHandler; " + DC + "instance.go callHandlerUnlocked")], None, ["HandleDirective calls"]),
  note=CORENOTE),
 dict(id="C04", title="Removing a handler withdraws its resolvers and their values",
  statement="Once the removal of a handler returns, every resolver it provided has been cancelled and none of them is ever started with a live context again, including those it was returning while being removed. All values of its resolvers are withdrawn from every reference, and no value of a removed handler stays attached.",
  quantifier=Q(COREOVER, COREQ + "; handler removal at any point, including while the handler is being asked"),
  why_tests_cant="Removal races with the handler call, with resolver starts and with value callbacks.",
  anchors=A([DC + "controller.go", DC + "instance.go", DC + "resolver.go", DC + "handler.go"], [("handler removal", DC + "controller.go AddHandler, removeHandlerLocked")], None, ["resolver contexts", "HandleValueRemoved"]),
  note=CORENOTE),
 dict(id="C05", title="Each reference sees exactly the attached values, consistently",
  statement="For each reference, each attached value is announced as added once and as removed at most once, after its addition, under an id that is non-zero and never reused on that directive, and nothing is announced after the disposal notice; a reference present from the start sees additions in id order. When activity settles, the values a reference has been told of and not withdrawn are exactly the values attached by the attached resolvers. A resolver can always remove its own attached value, and attaching is refused only by a hard cap or after it was cancelled.",
  quantifier=Q(COREOVER, COREQ + "; references added and released at any point"),
  why_tests_cant="Snapshots for new references race with value changes whose callbacks run unlocked.",
  anchors=A([DC + "instance.go", DC + "resolver.go", DC + "reference.go"], [("value fan-out", DC + "instance.go addValueLocked, AddReference; " + DC + "resolver-handler.go AddValue, RemoveValue")], [("attached values", "values by id per resolver")], ["HandleValueAdded", "HandleValueRemoved", "HandleInstanceDisposed"]),
  note=CORENOTE),
 dict(id="C06", title="Value caps hold, stop surplus resolvers and restart them below the cap",
  statement="With a hard cap no reference ever sees more values than the cap, and a value is refused only when the cap may have been reached. When the wanted number of values is reached, resolvers that hold no value are stopped; when values are withdrawn and the count falls below it, every stopped resolver, and every one that had failed, runs again.",
  quantifier=Q(COREOVER, COREQ + "; caps of one and two, hard and soft"),
  why_tests_cant="Reaching and leaving the cap races with resolver starts, exits and attachments.",
  anchors=A([DC + "instance.go", DC + "resolver.go"], [("resolver gating", DC + "instance.go checkFullLocked, handleFullLocked, handleNotFullLocked")], None, ["AddValue results", "resolver activations"]),
  note=CORENOTE),
 dict(id="C07", title="Idle reporting is truthful, non-repeating and carries resolver errors",
  statement="A directive is not reported idle before the handlers registered when it was added have answered. An idle callback hears alternating states only and, when activity settles, last heard exactly whether no resolver is still working; every unreleased callback is told. The resolver errors returned are those of the resolvers whose last run failed.",
  quantifier=Q(COREOVER, COREQ),
  why_tests_cant="Idle state is derived from concurrent resolver transitions while callbacks run unlocked.",
  anchors=A([DC + "instance.go", DC + "resolver.go"], [("idle tracking", DC + "instance.go AddIdleCallback and idle state handling")], None, ["idle callbacks", "GetResolverErrors"]),
  note=CORENOTE),
 dict(id="C08", title="A resolver runs at most once at a time, and stops with its directive",
  statement="A resolver never has two activations at once, even when a cancelled activation is slow to return, and is not restarted while its previous context is live. While its directive is alive and uncapped, an attached resolver runs or has finished. When the directive is disposed, every resolver context is cancelled, no resolver is started with a live context, and no goroutine is left behind once the resolvers return.",
  quantifier=Q(COREOVER, COREQ + "; resolvers that ignore cancellation for a while"),
  why_tests_cant="Overlapping cancellations and restarts need specific interleavings.",
  anchors=A([DC + "resolver.go", DC + "instance.go"], [("resolver execution", DC + "resolver.go updateContextLocked, resolver-handler.go executeResolver")], None, ["Resolve calls and their contexts"]),
  note=CORENOTE),
 dict(id="C09", title="Removal callbacks of values and resolvers run exactly once",
  statement="A callback registered for the removal of a value or of a resolver runs exactly once when its subject is gone by any path - explicit removal, clearing, handler removal, release of a child resolver or disposal of the directive - also when it is registered after the removal, and not while its subject is attached. A child resolver has no live context once its release returned.",
  quantifier=Q(COREOVER, COREQ + "; registration before, during and after removal"),
  why_tests_cant="Registration races with five different removal paths.",
  anchors=A([DC + "resolver.go", DC + "instance.go"], [("removal callbacks", DC + "resolver-handler.go AddValueRemovedCallback, AddResolverRemovedCallback, AddResolver")], None, ["callback invocations"]),
  note=CORENOTE),
 dict(id="C15", title="The directive controller neither deadlocks nor panics nor races",
  statement="Every call of the directive API made concurrently, including from callbacks of the controller itself, returns in bounded time once slow callbacks return. No interleaving makes the controller panic, spin without progress, or access memory without synchronisation.",
  quantifier=Q(COREOVER, COREQ),
  why_tests_cant="Deadlocks, list corruption and data races depend on the schedule.",
  anchors=A(COREFILES, [("locking and unlocked callbacks", DC + "*.go")], None, ["call completion", "race detector", "process health"]),
  note=CORENOTE),
 dict(id="C10", title="One-shot lookups return what the directive yields, or its error",
  statement="A one-shot call (ExecOneOff and its filtered, typed, transformed and waiting forms, ExecCollectValues) returns a value of its directive that passes its filter, with the id it was announced under and a reference that keeps the directive alive, or the error it was told of: a failed filter or transform, a resolver error when idle, a disposed directive, its ended context. It never returns a value that was withdrawn before the call, never both an error and a reference, and never fails without a cause. It returns in bounded time once a matching value is attached, the directive is idle (when asked to return then), the filter fails, the directive is closed or the context ends. The dispose callback runs exactly when a returned value is withdrawn.",
  quantifier=Q(COREOVER, "every interleaving of one-shot calls with resolvers that add and withdraw values and fail, handler removal, closing of the directive and cancellation of the context"),
  why_tests_cant="The result depends on the order of value, idle, error, disposal and cancellation callbacks that run concurrently.",
  anchors=A(["bus/oneoff.go", "bus/multi.go", "bus/wait.go", "bus/callback.go"], [("result selection", "bus/oneoff.go")], [("result, error, idle flags", "decided under a broadcast lock")], ["results of the calls", "dispose callbacks", "directive list"]),
  note=HELPNOTE),
 dict(id="C11", title="Watch helpers follow the attached values and apply effects exactly once",
  statement="The watching helpers (watch callbacks, containers, channels, latest, selected, routine, effects, transformed effects, one-value effects, reference-counted bus values) converge to the values that are attached: when activity settles, what the consumer last heard is what is attached, the selected value is an attached one (the lowest id where promised), and an effect is active exactly for the attached or selected values. An effect is applied at most once per value, at most one at a time where one is promised, and released exactly once, when its value is withdrawn or the watch ends. Callbacks do not overlap, and nothing is left running once the watch is released.",
  quantifier=Q(COREOVER, "every interleaving of watchers with resolvers that add and withdraw values, handler removal, closing of the directive and release of the watch, with slow callbacks"),
  why_tests_cant="Convergence after racing additions and removals needs many schedules.",
  anchors=A(["bus/watch.go", "bus/refcount.go", "bus/bus.go"], [("watching", "bus/watch.go")], None, ["callbacks", "containers", "channels", "effect releases"]),
  note=HELPNOTE),
 dict(id="C12", title="The bus runs an added controller once, until it is removed",
  statement="A controller added to the in-memory bus is executed exactly once, is asked for every live directive, and stays listed until it is removed, fails or its context ends. When it fails or panics its exit callback hears the error exactly once, it is delisted and its context ends, and the process survives; when it returns without an error it stays attached. After removal or release returned, its context is ended, it is not listed, its resolvers and values are withdrawn, and it is not asked for directives added later. Every bus call may be made from a controller, a handler or an exit callback and returns in bounded time.",
  quantifier=Q(COREOVER, "every interleaving of adding, executing, releasing and removing controllers with directives, with controllers that fail, panic, exit, ignore cancellation or call the bus from their callbacks"),
  why_tests_cant="Adding, exit and removal of controllers race with each other and with directives; tests add one controller at a time.",
  anchors=A(["bus/inmem/inmem.go", "bus/controller.go"], [("controller life cycle", "bus/inmem/inmem.go AddController, ExecuteController, RemoveController")], [("controller list", "attached controllers")], ["Execute calls", "exit callbacks", "GetControllers", "HandleDirective calls"]),
  note=BUSNOTE),
 dict(id="C13", title="The loader runs a requested controller exactly as long as it is requested",
  statement="For every live execute-controller directive each attached loader constructs one controller with exactly the given factory and config, executes it at most once at a time, and lists it on the bus exactly while it runs or after it returned without an error. A controller that fails or cannot be constructed is tried again, no sooner than its retry backoff says and no later than announced, until the backoff says stop; one that returned without an error or was closed is not executed again. The values of the directive say just that: the controller while it is up, its own error with the time of the next try while it is waiting. Once the directive or the loader is gone the controller's context is cancelled, it is delisted, and it is closed exactly once, never while it runs. Waiting for a running controller returns a controller of that config or its error, ends with its context, and its dispose callback is called once, when the controller leaves the running state.",
  quantifier=Q(COREOVER, "every interleaving of requests, releases, loader additions and removals and waits, with controllers that fail at construction or while running, finish, run long or are slow to stop, and every kind of retry backoff"),
  why_tests_cant="Failures, backoff timers, cancellation and removal overlap; the tests load one controller that does not fail and look once.",
  anchors=A(["controller/loader/loader-resolve.go", "controller/loader/loader.go", "controller/loader/ex-load-controller.go", "bus/bus.go"], [("execution and retry", "controller/loader/loader-resolve.go Resolve"), ("waiting", "controller/loader/ex-load-controller.go")], None, ["Construct, Execute and Close calls", "directive values", "GetControllers"]),
  note="Seeded search with the real loader, resolver, in-memory bus and directive controller; factories and controllers are scripted." + TAILNOTE),
 dict(id="C14", title="A config is loaded with its own factory and released with its request",
  statement="Requesting a controller by its config executes it with a factory registered for exactly that config ID and with the retry backoff of the request; the values of the request are those of that execution. When nothing requests the config any more, or the resolver or factory that served it is gone, the execution and the values it added are withdrawn. Looking up a factory or config constructor by config ID only ever yields one of that ID. A static resolver returns the added factory of an ID, never an older version than one added before, under concurrent additions and lookups, and lists each once in order.",
  quantifier=Q(COREOVER, "every interleaving of requests, lookups, releases, resolver and loader removal, factory additions and factories that are unloaded, with failing controllers"),
  why_tests_cant="A request is served by three chained directives whose values and lifetimes change concurrently; the tests resolve once.",
  anchors=A(["controller/resolver/res-load-with-config.go", "controller/resolver/controller.go", "controller/resolver/static/resolver.go", "bus/passthru.go"], [("loading by config", "controller/resolver/res-load-with-config.go Resolve"), ("static resolver", "controller/resolver/static/resolver.go")], None, ["directive values", "factories and configs given to Construct", "GetDirectives"]),
  note="Seeded search with the real loader, resolver, in-memory bus and directive controller; factories and controllers are scripted." + TAILNOTE),
 dict(id="C16", title="A configset key runs its newest config while referenced, and only then",
  statement="While a key of the configset controller is referenced (by ApplyConfigSet, a pushed reference, or a lookup or persistent reference once a config is known) exactly one controller runs for it, with a config applied for that key whose revision is not older than any applied since it has been referenced without a gap; an invalid config or one without factory runs nothing until it is replaced. The state of the key, as seen by the values of ApplyConfigSet and LookupConfigSet, by state callbacks and by GetState, never mixes configs, never goes back to an older config, and settles on what actually runs. When nothing references the key any more its controller is stopped and its requests are released. Every call returns, whatever states change meanwhile.",
  quantifier=Q(COREOVER, "every interleaving of applying, looking up, pushing and releasing configs of several revisions, closing directives, stopping and starting the configset controller, and controllers that fail, finish or are slow to stop"),
  why_tests_cant="The tests apply one config set; they never replace a config, release concurrently with a state change, or look up a key before it is applied.",
  anchors=A(["controller/configset/controller/controller.go", "controller/configset/controller/running-ctrl.go", "controller/configset/controller/running-ctrl-ref.go", "controller/configset/controller/apply-config-set.go", "controller/configset/controller/lookup-config-set.go"], [("running controller", "controller/configset/controller/running-ctrl.go Execute"), ("reference counting", "controller/configset/controller/controller.go Execute, running-ctrl-ref.go Release")], None, ["values of ApplyConfigSet and LookupConfigSet", "AddStateCallback", "GetState", "Construct, Execute and Close of the configured controllers"]),
  note="Seeded search with the real configset controller, loader, resolver, in-memory bus and directive controller; controllers are scripted." + TAILNOTE),
 dict(id="C17", title="A controller request applies its configs and reports their status",
  statement="Executing a controller request applies the configs of its protobuf and YAML config sets; of a key in both the protobuf config is used, or the YAML one if overwrite is set. Of config sets merged for a request the newest config of a key is used, their protobuf, JSON and YAML forms carry them unchanged, and entries without a key are ignored. A config that cannot be resolved fails the request, or with partial success is reported as ERROR while the others are applied, unless none is left. Every status passed to the callback belongs to a key of the request and is consistent: RUNNING with the info of a controller of that key and no error, ERROR with an error and no controller, CONFIGURING with neither. For as long as the request executes, the last status reported for each key settles on what its controller does, whatever changes meanwhile and however slow the callback is. It returns when it is cancelled, its directive ends or its callback fails, then with the error of the callback, and not otherwise; after that nothing is reported and nothing it requested stays requested. Executing a single controller reports its status likewise, each change once, and returns its error. An omitted config is an empty one; null entries and invalid configs cause errors, not panics.",
  quantifier=Q(COREOVER, "every interleaving of requests over shared keys, pushes, cancellations and closed directives, starts and stops of the configset controller, JSON and protobuf configs, slow and failing callbacks, and controllers that fail, finish, retry or are slow to stop"),
  why_tests_cant="There is no test of it; the order in which values are added and removed, and of the callback, depends on the schedule.",
  anchors=A(["controller/exec/exec-request.go", "controller/exec/exec.go", "controller/configset/json/yaml.go", "controller/configset/json/controller-config.go", "controller/configset/proto/controller_config.go", "controller/configset/proto/configset.go"], [("config set request", "controller/exec/exec-request.go Execute"), ("single controller", "controller/exec/exec.go ExecuteController")], None, ["callback of Execute and ExecuteController", "their results", "GetDirectives"]),
  note="Seeded search with the real request, configset controller, loader, resolver, in-memory bus and directive controller; controllers and callbacks are scripted." + TAILNOTE),
 dict(id="C18", title="Library resolvers offer what their source has and release it once",
  statement="While a directive is referenced, the values of each resolver of the directive package (value, getter, access, keyed getter, reference count, keyed reference count, watchable, unique list and unique map, transform and typed transform, and retry) and of the pass-through and transform handlers of the bus package settle on exactly those its source has at that time, transformed and filtered by its transformation if it has one: values the source changed, removed or released are withdrawn and a getter whose value was released, even while it is being returned, is asked again. Each release function a getter or transformation returned is called exactly once, when its value is no longer offered, was not accepted or an error was returned with it; once it was called its value is not offered to a new reference. An error of a source or transformation ends the resolver. Resolvers mark the directive idle once its values are known, and when the directive ends they stop and release what they referenced. A retry resolver starts the failed resolver again after each pause of the backoff and fails once the backoff says stop.",
  quantifier=Q(COREOVER, "every interleaving of source changes, releases and errors with references added and released, lingering directives, value limits, closed source directives and removed handlers, for every resolver of the library"),
  why_tests_cant="Tests cover the watchable resolvers with one change at a time; the others are not tested, and sources change while their values are added, removed or released.",
  anchors=A(["directive/access-resolver.go", "directive/keyed-getter-resolver.go", "directive/transform-resolver.go", "directive/typed-transform-resolver.go", "directive/unique-list-resolver.go", "directive/unique-map-resolver.go", "directive/watchable-resolver.go", "directive/refcount-resolver.go", "directive/resolver-retry.go", "bus/transform.go", "bus/passthru.go"], [("resolvers", "directive/*-resolver.go Resolve"), ("forwarding handlers", "bus/transform.go, bus/passthru.go")], None, ["HandleValueAdded, HandleValueRemoved", "release functions", "AddIdleCallback"]),
  note="Seeded search with the real resolvers, in-memory bus and directive controller; sources and transformations are scripted. The reference counter of aperturerobotics/util is real, its own early release is not judged." + TAILNOTE),
 dict(id="C19", title="A bridge offers on its bus what the target bus offers, while it is used",
  statement="While a bridge is attached to a bus, a directive there which its filter accepts is added to the target bus, and the values it has there are its values on this bus, next to those of other handlers; a value that is withdrawn on the target is withdrawn here, values of others stay. A directive the filter rejects, or for which the filter returns an error, is not added to the target. When the directive on this bus is released or closed, or the bridge is removed, the directive on the target is released; when it is added again, also as the same object and right away, it is forwarded again, and so it is for a bridge that is removed and added again. When the target disposes the directive, nothing of it remains here and the bridge no longer keeps the directive from being idle. Bridges in a row and side by side compose; bridges that form a loop forward a directive around it once and not forever, and a release is followed around the loop. (A directive object that is not equivalent to others is forwarded by a bridge once at a time.)",
  quantifier=Q(COREOVER, "every interleaving of adding, releasing and re-adding directives, changes of values on each bus, bridges that are added and removed, closed directives, filters that reject or fail, lingering directives and value limits, for bridges in a row, side by side, in a diamond and in a loop"),
  why_tests_cant="There is no test of it; two buses with their own locks, callbacks of one calling the other, and releases which follow additions through a row of bridges.",
  anchors=A(["bus/bridge/bridge.go", "bus/bridge/resolver.go"], [("forwarding", "bus/bridge/bridge.go HandleDirective"), ("values", "bus/bridge/resolver.go Resolve")], None, ["values, idle state and disposal at references on each bus", "directives listed on each bus"]),
  note="Seeded search with the real bridges, in-memory buses and directive controllers; value sources and filters are scripted." + TAILNOTE),
 dict(id="C20", title="The loaded plugins are those in the plugin directory",
  statement="While the shared-library loader runs, it loads every valid plugin binary of its directory once, and not again unless it changes; a file that is not a plugin, a broken plugin or one that fails to start is skipped and does not affect the others. With watching enabled, when the directory stops changing, exactly the valid plugins in it are loaded, each with its latest content, whatever sequence of writing, replacing, renaming, moving and removing led there; without watching, those of the start. While a plugin is loaded, a config one of its factories builds resolves to a factory of it (or of another loaded plugin that has one), once per plugin.",
  quantifier=Q(COREOVER, "every interleaving of creating, rewriting, replacing, moving and removing plugin files, of delayed, coalesced and failing file system notifications, lookups, and starting and stopping the loader, with broken plugins"),
  why_tests_cant="There is no test of it; notifications arrive late and together, and files change while they are read.",
  anchors=A(["plugin/loader/shared-library/filesystem/watcher.go", "plugin/loader/shared-library/filesystem/controller.go", "plugin/loader/shared-library/shared-library.go", "plugin/loader/shared-library/plugin-stat.go"], [("watching and loading", "plugin/loader/shared-library/filesystem/watcher.go Execute, SyncPlugins")], [("loaded plugins", "kept by path")], ["plugin Load calls", "resolvers of plugins", "factories a config resolves to"]),
  note=PLUGNOTE + TAILNOTE),
 dict(id="C21", title="Unloading a plugin withdraws its factories and controllers",
  statement="When a plugin is unloaded (its file was removed or replaced, or the loader stopped) the context its factories and controllers were given is canceled, its resolver and then the plugin itself are told to unload, once each, its factories are no longer found, construct nothing any more, and the controllers constructed by them are stopped, closed and taken off the bus. A requested config whose plugin was unloaded runs again, as one controller, from any other loaded plugin that provides it, now or when it is loaded.",
  quantifier=Q(COREOVER, "every interleaving of requests and releases of configs several plugins provide with loading, replacing and removing plugins, retries of failing controllers, and starting and stopping the loader"),
  why_tests_cant="There is no test of it; the factory of a plugin is in use by lookups, constructions, retries and running controllers when its file disappears.",
  anchors=A(["plugin/resolver.go", "plugin/static-plugin-factory.go", "plugin/static-plugin.go", "plugin/loader/shared-library/filesystem/watcher.go", "controller/resolver/res-load-with-config.go", "controller/loader/loader-resolve.go"], [("unloading", "plugin/resolver.go PrePluginUnload")], [("factory context", "canceled when the plugin is unloaded")], ["controllers on the bus", "plugin and resolver unload calls", "factories a config resolves to"]),
  note=PLUGNOTE + TAILNOTE),
 dict(id="C22", title="The bus API shows the bus and executes configs for its clients",
  statement="While the API controller runs, its address accepts connections and several clients are served at the same time; an address in use is tried again, and when the controller stops the address is free and its connections are closed. GetBusInfo lists every controller and directive on the bus once, with its info, and nothing else. ExecController fails where it is disabled and applies nothing; elsewhere it applies the given config sets, a config which cannot be used being reported as ERROR without affecting the others, and for as long as the client listens the last status it received for each key settles on what its controller does. The request ends, and what it applied is withdrawn, when the client cancels it or disconnects or the API stops, and not before. The client commands for both do the same.",
  quantifier=Q(COREOVER, "every interleaving of connecting, calls, cancellations, disconnects, changes on the bus, and starts and stops of the API, with slow, stalled, fragmented and reset connections, small windows, addresses in use and failing accepts"),
  why_tests_cant="There is no test of it; calls of several clients, the network and the lifecycle of the API controller overlap, and connections break at any byte.",
  anchors=A(["bus/api/controller/controller.go", "bus/api/api_exec_controller.go", "bus/api/api_get_bus_info.go", "controller/exec/exec-request.go", "cli/client.go", "cli/client_exec_configset.go", "cli/client_nodeinfo.go"], [("API", "bus/api/api_exec_controller.go ExecController, api_get_bus_info.go GetBusInfo"), ("serving", "bus/api/controller/controller.go Execute")], None, ["responses of GetBusInfo and ExecController", "listeners and connections", "controllers on the bus"]),
  note="Seeded search with the real API controller, API, client, starpc and yamux, request, configset controller, loader, resolver, bus; the network (sim/shim/net) and the configured controllers are simulated. Not claimed: noticing clients which vanish without closing their connection (keep-alives are off, as shipped)." + TAILNOTE),
 dict(id="C23", title="The daemon runs its config file, and does not lose it",
  statement="While the daemon runs, a controller runs for each distinct config of its config file which can be constructed, with that config, and none for anything else: whatever the entries and their values (JSON or YAML), also when the plugin with the controller is added, removed or added again later, and again after each crash and restart. Asked to listen, it serves the bus API, through which clients see the bus and execute further configs until they cancel. With --write-config the file is created if it does not exist and has the same config set afterwards, and at no time - also when the process is killed at any operation, the disk fails or is full, or the power is lost - is it missing, torn or different; without, or when it cannot be parsed, it is not touched, and a daemon that ends because writing failed leaves no other file. When the file cannot be read, parsed, resolved or written, or does not exist and is not to be written, the daemon ends with a non-zero exit code and runs no part of it; otherwise it keeps running.",
  quantifier=Q(COREOVER, "every interleaving of starting, killing (at every operation on a file) and restarting the daemon with edits of its file between, plugins added and removed, an address in use and loss of power, for read, open, write, sync and rename errors at each operation, and config sets with special strings, large revisions, missing configs, invalid and unknown entries"),
  why_tests_cant="There is no test of the command; a crash, full disk or power loss between two file operations leaves on disk what no fault-free run shows.",
  anchors=A(["cmd/controllerbus/cmd_daemon.go", "cmd/controllerbus/main.go", "cmd/controllerbus/notjs.go", "core/core.go", "controller/configset/json/yaml.go", "controller/configset/json/configset.go", "controller/configset/json/controller-config.go", "controller/configset/json/config.go", "cli/daemon.go"], [("daemon", "cmd/controllerbus/cmd_daemon.go runDaemon"), ("config file", "controller/configset/json/yaml.go MarshalYAML, UnmarshalYAML")], [("config file", "--config")], ["content of the config file after the process ended", "exit code", "controllers that run, by config", "GetBusInfo, ExecController"]),
  note="Seeded search with the real command, core bus, plugin loader, configset, API controller, API and client; files are real files in a scratch directory behind a stand-in of os which fails operations, cuts writes, kills the process at an operation, and drops unsynced content at a loss of power (metadata is taken to be durable in order). Signals are not simulated: the daemon ends by being killed." + TAILNOTE),
 dict(id="C24", title="A plugin is compiled from its current sources, complete, and under its hash",
  statement="While a compiler watcher runs, once the source files of its packages have stopped changing - edited in place, replaced, added, removed, or their directory replaced, at any time, also during the analysis or the compilation, and however the packages are specified - its output is the plugin compiled from exactly these files: all of their packages and factories, the imports between them within the plugin, the id, and a version and import prefix with the hash of the output name. The same sources give the same hash and no new output, others another hash and import prefix. A file under the name of the output is complete at every moment, also after the process is killed, the disk fails or is full, or the power is lost, and what a crash left behind is never taken for a finished output. When a new output is written, older versions and incomplete files are removed and no other file is touched; the callback gets the path of each new output, once, when it is complete. When the sources are broken, or listing, compiling, checking, writing, watching or the callback fails, it ends with an error rather than staying silent; otherwise it keeps running until it is canceled, and leaves neither generated files nor watches behind. Compiling once, by the library or the command, makes the plugin of the current files or reports an error.",
  quantifier=Q(COREOVER, "every interleaving of edits with analysis, both compilation passes, copying and waiting, kills at every operation on a file, loss of power, errors of each operation on files, of commands and of the callback, a full event queue, module layouts (one, nested, separate), sets of packages, and restarts"),
  why_tests_cant="The tests format one file; what is missed depends on when a file changes relative to analysis, compilation and watching, and on where a crash cuts the output.",
  anchors=A(["plugin/compiler/watcher.go", "plugin/compiler/module-compiler.go", "plugin/compiler/analysis.go", "plugin/compiler/codegen.go", "plugin/compiler/hash.go", "plugin/compiler/util.go", "plugin/compiler/module-utils.go", "plugin/cli/compile.go"], [("watching", "plugin/compiler/watcher.go WatchCompilePlugin, CleanupOldVersions"), ("compiling", "plugin/compiler/module-compiler.go GenerateModules, CompilePlugin; codegen.go BuildPlugin")], [("build hash", "{buildHash} in output name, version and import prefix")], ["files in the output directory", "callbacks", "errors returned", "generated modules at the time of go build"]),
  note="Seeded search with the real watcher, analysis, code generation, module files, hashing and cleanup over real files in a scratch directory; the go command is simulated: packages.Load parses the files that are there, go build resolves imports through the generated go.mod files and writes a description of what it read. Not claimed: packages which share a package name, and the literal {buildHash} which compiling once leaves in its version and output name." + TAILNOTE),
]
NA = []
# what planting a bug showed
SEEDNOTE = {
 "c09-callback-ids": "missed at first: callbacks were released in order of registration; now in any order",
 "c13-canceled-error": "missed at first: no controller failed with context.Canceled; now some do",
 "c15-dispose-callback-lock": "missed at first: dispose callbacks did not call back; now they re-enter",
 "c06-error-restart": "missed at first: nothing was said of failed resolvers; now capped directives are filled and emptied at the end",
 "c14-static-race": "at first exit 2: the race report was cut off in the middle of the output; it is now kept",
}
