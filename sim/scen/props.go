package scen

func init() {
	coreReal := []string{"directive/controller", "directive"}
	coreStub := []string{"clock (synctest fake clock)", "goroutine scheduler (seeded)", "directives, handlers, resolvers and clients are scripted"}
	for _, id := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C15"} {
		reg(&Prop{ID: id, Scenarios: []Entry{{Core{}, 1}}, Real: coreReal, Stub: coreStub})
	}
	busReal := append(coreReal, "bus", "bus/inmem")
	reg(&Prop{ID: "C12", Scenarios: []Entry{{BusCtl{}, 1}}, Real: busReal, Stub: coreStub})
	loadReal := append(busReal, "controller/loader", "controller/resolver", "controller/resolver/static")
	for _, id := range []string{"C13", "C14"} {
		reg(&Prop{ID: id, Scenarios: []Entry{{Loader{}, 1}}, Real: loadReal, Stub: coreStub})
	}
	csReal := append(loadReal, "controller/configset", "controller/configset/controller")
	reg(&Prop{ID: "C16", Scenarios: []Entry{{ConfSet{}, 1}}, Real: csReal, Stub: coreStub})
	exReal := append(csReal, "controller/exec", "controller/configset/proto", "controller/configset/json")
	reg(&Prop{ID: "C17", Scenarios: []Entry{{ExecReq{}, 1}}, Real: exReal, Stub: coreStub})
	reg(&Prop{ID: "C18", Scenarios: []Entry{{ResLib{}, 1}}, Real: busReal, Stub: coreStub})
	reg(&Prop{ID: "C19", Scenarios: []Entry{{Bridge{}, 1}}, Real: append(busReal, "bus/bridge"), Stub: coreStub})
	plugReal := append(loadReal, "plugin", "plugin/loader/shared-library", "plugin/loader/shared-library/filesystem", "util/debounce-fswatcher")
	plugStub := append(coreStub, "file notification (queue of inotify)", "std plugin.Open (content of the file decides)")
	for _, id := range []string{"C20", "C21"} {
		reg(&Prop{ID: id, Scenarios: []Entry{{Plugins{}, 1}}, Real: plugReal, Stub: plugStub})
	}
	apiStub := append(coreStub, "network (in memory: delays, stalls, resets, small windows)")
	reg(&Prop{ID: "C22", Scenarios: []Entry{{BusAPI{}, 1}}, Real: append(exReal, "bus/api", "bus/api/controller", "cli (BuildClient)", "starpc", "go-yamux"), Stub: apiStub})
	reg(&Prop{ID: "C23", Scenarios: []Entry{{Daemon{}, 1}}, Real: append(exReal, "cmd/controllerbus", "core", "cli", "bus/api", "bus/api/controller", "plugin", "plugin/loader/shared-library"), Stub: append(apiStub, "process (exit, kill)", "disk (errors, short writes, loss of power)", "file notification (queue of inotify)", "std plugin.Open (content of the file decides)")})
	reg(&Prop{ID: "C24", Scenarios: []Entry{{Compiler{}, 1}}, Real: []string{"plugin/compiler", "util/debounce-fswatcher", "go/parser, go/printer, gofumpt, x/mod/modfile"}, Stub: []string{"clock (synctest fake clock)", "goroutine scheduler (seeded)", "go list (packages.Load: parses the real files)", "go mod tidy, go build (resolve and read the generated modules, write a description of the plugin)", "process (kill, stop)", "disk (errors, short writes, loss of power)", "file notification (queue of inotify)"}})
	for _, id := range []string{"C10", "C11"} {
		reg(&Prop{ID: id, Scenarios: []Entry{{Helpers{}, 1}}, Real: busReal, Stub: coreStub})
	}
}
