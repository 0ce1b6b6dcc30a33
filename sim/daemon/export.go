// Package daemon is the controllerbus command: the build adds its files here.
package daemon

// Main runs the command.
func Main() { main() }
