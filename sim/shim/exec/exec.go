// Package exec stands in for the commands which a process runs.
package exec

import (
	"context"
	"errors"
	"io"
	"strings"

	"github.com/sirupsen/logrus"
)

// Runner runs a command.
var Runner func(ctx context.Context, c *Cmd) error

// Cmd is a command.
type Cmd struct {
	Path   string
	Args   []string
	Env    []string
	Dir    string
	Stdin  io.Reader
	Stdout io.Writer
	Stderr io.Writer

	ctx  context.Context
	done chan error
}

// CommandContext builds a command which is killed when the context is done.
func CommandContext(ctx context.Context, proc string, args ...string) *Cmd {
	return &Cmd{ctx: ctx, Path: proc, Args: append([]string{proc}, args...)}
}

// Command builds a command.
func Command(proc string, args ...string) *Cmd {
	return CommandContext(context.Background(), proc, args...)
}

// NewCmd builds a command.
func NewCmd(ctx context.Context, proc string, args ...string) *Cmd {
	return CommandContext(ctx, proc, args...)
}

// String describes the command.
func (c *Cmd) String() string { return strings.Join(c.Args, " ") }

// Environ returns the environment.
func (c *Cmd) Environ() []string { return c.Env }

// Run runs the command.
func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

// Start starts the command.
func (c *Cmd) Start() error {
	if c.done != nil {
		return errors.New("exec: already started")
	}
	if err := c.ctx.Err(); err != nil {
		return err
	}
	c.done = make(chan error, 1)
	go func() { c.done <- Runner(c.ctx, c) }()
	return nil
}

// Wait waits for the command.
func (c *Cmd) Wait() error {
	if c.done == nil {
		return errors.New("exec: not started")
	}
	return <-c.done
}

// Output runs the command.
func (c *Cmd) Output() ([]byte, error) { return nil, c.Run() }

// CombinedOutput runs the command.
func (c *Cmd) CombinedOutput() ([]byte, error) { return nil, c.Run() }

// StartAndWait runs the command.
func StartAndWait(ctx context.Context, le *logrus.Entry, c *Cmd) error { return c.Run() }

// ExecCmd runs the command.
func ExecCmd(le *logrus.Entry, c *Cmd) error { return c.Run() }
