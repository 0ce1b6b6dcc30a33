package scen

import "runtime"

func simSelf() uint64 { return runtime.SimSelf() }
