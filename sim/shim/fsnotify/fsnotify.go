// Package fsnotify stands in for filesystem notification: the scenario tells it
// what happened, and it is delivered like by the kernel queue of inotify.
package fsnotify

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sync"

	real "github.com/fsnotify/fsnotify"
)

// Types and constants of the package.
type (
	Event = real.Event
	Op    = real.Op
)

const (
	Create = real.Create
	Write  = real.Write
	Remove = real.Remove
	Rename = real.Rename
	Chmod  = real.Chmod
)

var (
	ErrNonExistentWatch = real.ErrNonExistentWatch
	ErrClosed           = real.ErrClosed
	ErrEventOverflow    = real.ErrEventOverflow
)

// Watcher watches a set of paths.
type Watcher struct {
	Events chan Event
	Errors chan error

	mtx    sync.Mutex
	paths  []string
	queue  []Event
	lost   bool
	wake   chan struct{}
	done   chan struct{}
	exited chan struct{}
	closed bool
}

var (
	mtx      sync.Mutex
	watchers []*Watcher
	// Limit is the length of the kernel queue.
	Limit = 1 << 14
	// Delay is called before an event is delivered.
	Delay func()
	// Overflow is called when the queue overflows.
	Overflow func()
	// AddErr may return an error for Add.
	AddErr func(path string) error
)

// Reset forgets all watchers.
func Reset() {
	watchers, Limit, Delay, Overflow, AddErr = nil, 1<<14, nil, nil, nil
}

// Open returns the number of watchers which are not closed.
func Open() int {
	mtx.Lock()
	defer mtx.Unlock()
	return len(watchers)
}

// Emit reports an event in a directory.
func Emit(name string, op Op) {
	mtx.Lock()
	defer mtx.Unlock()
	for _, w := range watchers {
		w.mtx.Lock()
		if slices.Contains(w.paths, filepath.Dir(name)) {
			w.push(Event{Name: name, Op: op})
		}
		w.mtx.Unlock()
	}
}

// Removed reports that a watched directory is removed or renamed: the watch is
// gone.
func Removed(dir string, op Op) {
	mtx.Lock()
	defer mtx.Unlock()
	for _, w := range watchers {
		w.mtx.Lock()
		if i := slices.Index(w.paths, dir); i >= 0 {
			w.push(Event{Name: dir, Op: op})
			w.paths = slices.Delete(w.paths, i, i+1)
		}
		w.mtx.Unlock()
	}
}

func (w *Watcher) push(e Event) {
	if n := len(w.queue); n > 0 && w.queue[n-1] == e && e.Op == Write {
		return // coalesced
	}
	if len(w.queue) >= Limit {
		if !w.lost && Overflow != nil {
			Overflow()
		}
		w.lost = true
	} else {
		w.queue = append(w.queue, e)
	}
	select {
	case w.wake <- struct{}{}:
	default:
	}
}

// NewWatcher creates a new Watcher.
func NewWatcher() (*Watcher, error) { return NewBufferedWatcher(0) }

// NewBufferedWatcher creates a new Watcher with a buffered Events channel.
func NewBufferedWatcher(sz uint) (*Watcher, error) {
	w := &Watcher{Events: make(chan Event, sz), Errors: make(chan error), wake: make(chan struct{}, 1), done: make(chan struct{}), exited: make(chan struct{})}
	mtx.Lock()
	watchers = append(watchers, w)
	mtx.Unlock()
	go w.run()
	return w, nil
}

func (w *Watcher) run() {
	defer close(w.exited)
	defer close(w.Errors)
	defer close(w.Events)
	for {
		w.mtx.Lock()
		var e Event
		have, lost := len(w.queue) > 0, false
		if have {
			e = w.queue[0]
			w.queue = w.queue[1:]
		} else {
			lost, w.lost = w.lost, false
		}
		w.mtx.Unlock()
		switch {
		case have:
			if Delay != nil {
				Delay()
			}
			select {
			case w.Events <- e:
			case <-w.done:
				return
			}
		case lost:
			select {
			case w.Errors <- ErrEventOverflow:
			case <-w.done:
				return
			}
		default:
			select {
			case <-w.wake:
			case <-w.done:
				return
			}
		}
	}
}

// Add starts monitoring the path.
func (w *Watcher) Add(path string) error {
	w.mtx.Lock()
	defer w.mtx.Unlock()
	if w.closed {
		return ErrClosed
	}
	if AddErr != nil {
		if err := AddErr(path); err != nil {
			return err
		}
	}
	path = filepath.Clean(path)
	if _, err := os.Lstat(path); err != nil {
		return err
	}
	if !slices.Contains(w.paths, path) {
		w.paths = append(w.paths, path)
	}
	return nil
}

// Remove stops monitoring the path.
func (w *Watcher) Remove(path string) error {
	w.mtx.Lock()
	defer w.mtx.Unlock()
	if w.closed {
		return nil
	}
	i := slices.Index(w.paths, filepath.Clean(path))
	if i < 0 {
		return fmt.Errorf("%w: %s", ErrNonExistentWatch, path)
	}
	w.paths = slices.Delete(w.paths, i, i+1)
	return nil
}

// WatchList returns the watched paths.
func (w *Watcher) WatchList() []string {
	w.mtx.Lock()
	defer w.mtx.Unlock()
	if w.closed {
		return nil
	}
	return slices.Clone(w.paths)
}

// Close removes all watches and closes the Events channel.
func (w *Watcher) Close() error {
	w.mtx.Lock()
	if w.closed {
		w.mtx.Unlock()
		return nil
	}
	w.closed = true
	w.mtx.Unlock()
	mtx.Lock()
	if i := slices.Index(watchers, w); i >= 0 {
		watchers = slices.Delete(watchers, i, i+1)
	}
	mtx.Unlock()
	close(w.done)
	<-w.exited
	return nil
}
