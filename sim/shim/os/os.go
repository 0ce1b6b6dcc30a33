// Package os stands in for the operating system in a command: the files are
// real ones in the directory of the scenario, which decides about errors and
// when the process or the machine stops.
package os

import (
	"errors"
	"io"
	"io/fs"
	real "os"
	"path/filepath"
	"runtime"
	"sync"
	"syscall"
)

// Types of the package.
type (
	FileInfo     = real.FileInfo
	FileMode     = real.FileMode
	DirEntry     = real.DirEntry
	PathError    = real.PathError
	LinkError    = real.LinkError
	SyscallError = real.SyscallError
	Signal       = real.Signal
)

// Constants of the package.
const (
	O_RDONLY = real.O_RDONLY
	O_WRONLY = real.O_WRONLY
	O_RDWR   = real.O_RDWR
	O_APPEND = real.O_APPEND
	O_CREATE = real.O_CREATE
	O_EXCL   = real.O_EXCL
	O_SYNC   = real.O_SYNC
	O_TRUNC  = real.O_TRUNC

	ModeDir     = real.ModeDir
	ModeSymlink = real.ModeSymlink
	ModePerm    = real.ModePerm
	ModeType    = real.ModeType

	PathSeparator     = real.PathSeparator
	PathListSeparator = real.PathListSeparator
	DevNull           = real.DevNull
)

// Variables and functions of the package.
var (
	ErrInvalid          = real.ErrInvalid
	ErrPermission       = real.ErrPermission
	ErrExist            = real.ErrExist
	ErrNotExist         = real.ErrNotExist
	ErrClosed           = real.ErrClosed
	ErrDeadlineExceeded = real.ErrDeadlineExceeded

	Interrupt = real.Interrupt
	Kill      = real.Kill

	IsExist      = real.IsExist
	IsNotExist   = real.IsNotExist
	IsPermission = real.IsPermission
	IsTimeout    = real.IsTimeout
	Getenv       = real.Getenv
	LookupEnv    = real.LookupEnv
	Environ      = real.Environ
	ExpandEnv    = real.ExpandEnv
	Expand       = real.Expand
	Getpid       = real.Getpid
	Getwd        = real.Getwd
	Hostname     = real.Hostname
	DirFS        = real.DirFS
	SameFile     = real.SameFile
	Stdin        = real.Stdin
	Stdout       = real.Stdout
	Stderr       = real.Stderr

	// Args are the arguments of the process.
	Args []string
)

// Kinds of operations.
const (
	OpRead   = "read"
	OpOpen   = "open"
	OpWrite  = "write"
	OpSync   = "sync"
	OpRename = "rename"
	OpRemove = "remove"
	OpStat   = "stat"
)

// ErrDead is returned by the operations of a process which was killed.
var ErrDead = errors.New("the process is dead")

var (
	mtx  sync.Mutex
	dead bool
	// unsynced are the files with content which is not on the disk yet, and
	// how much of it is.
	unsynced map[string]int
	temps    int
	// Temp is the directory for temporary files.
	Temp string
	// Piece is how much is written at once.
	Piece = 16
	// Op is called for each operation, before it: it returns the error of it,
	// and for a write the number of bytes which are written before.
	Op func(kind, name string, n int) (int, error)
	// Exited is called when the process exits.
	Exited func(code int)
)

// Reset starts a process.
func Reset() {
	mtx.Lock()
	defer mtx.Unlock()
	dead, Op, Exited, Piece = false, nil, nil, 16
	if unsynced == nil {
		unsynced = map[string]int{}
	}
}

// Clear forgets what is not on the disk.
func Clear() {
	mtx.Lock()
	defer mtx.Unlock()
	temps, unsynced, Temp = 0, map[string]int{}, ""
}

// TempDir returns the directory for temporary files.
func TempDir() string {
	if Temp != "" {
		return Temp
	}
	return real.TempDir()
}

// Die makes all operations fail without an effect.
func Die() {
	mtx.Lock()
	defer mtx.Unlock()
	dead = true
}

// PowerLoss removes content which is not on the disk, cut tells how many of n
// bytes got there. It returns the number of files with lost content.
func PowerLoss(cut func(n int) int) int {
	mtx.Lock()
	defer mtx.Unlock()
	lost := 0
	for _, name := range sortedKeys(unsynced) {
		st, err := real.Stat(name)
		if err != nil {
			continue
		}
		n, size := unsynced[name], int(st.Size())
		if n < size {
			if n += cut(size - n + 1); n < size {
				lost++
				_ = real.Truncate(name, int64(n))
			}
		}
	}
	unsynced = map[string]int{}
	return lost
}

func sortedKeys(m map[string]int) []string {
	var out []string
	for k := range m {
		i := len(out)
		out = append(out, k)
		for i > 0 && out[i-1] > k {
			out[i] = out[i-1]
			i--
		}
		out[i] = k
	}
	return out
}

// begin begins an operation.
func begin(kind, name string, n int) (int, error) {
	runtime.SimYield(0)
	mtx.Lock()
	d, op := dead, Op
	mtx.Unlock()
	if !d && op != nil {
		var err error
		if n, err = op(kind, name, n); err != nil {
			return n, err
		}
		mtx.Lock()
		d = dead
		mtx.Unlock()
	}
	if d {
		return 0, &PathError{Op: kind, Path: name, Err: ErrDead}
	}
	return n, nil
}

func clean(name string) string { return filepath.Clean(name) }

// File is an open file.
type File struct {
	*real.File
	name string
}

// OpenFile opens a file.
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	kind := OpOpen
	if flag&(O_WRONLY|O_RDWR|O_CREATE|O_TRUNC) == 0 {
		kind = OpRead
	}
	if _, err := begin(kind, name, 0); err != nil {
		return nil, err
	}
	f, err := real.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	if st, err := f.Stat(); err == nil && kind == OpOpen {
		mtx.Lock()
		if _, ok := unsynced[clean(name)]; !ok {
			unsynced[clean(name)] = int(st.Size())
		} else if st.Size() == 0 {
			unsynced[clean(name)] = 0
		}
		mtx.Unlock()
	}
	return &File{File: f, name: name}, nil
}

// Open opens a file to read it.
func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }

// Create creates or truncates a file.
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

// CreateTemp creates a temporary file.
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			pre, suf = pattern[:i], pattern[i+1:]
			break
		}
	}
	for {
		mtx.Lock()
		temps++
		n := temps
		mtx.Unlock()
		f, err := OpenFile(filepath.Join(dir, pre+itoa(n)+suf), O_RDWR|O_CREATE|O_EXCL, 0o600)
		if !IsExist(err) {
			return f, err
		}
	}
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + itoa(n%10)
}

// Write writes to the file.
func (f *File) Write(b []byte) (int, error) {
	done := 0
	for done < len(b) {
		n := min(len(b)-done, Piece)
		m, err := begin(OpWrite, f.name, n)
		if err != nil {
			if m > 0 && !errors.Is(err, ErrDead) {
				m, _ = f.File.Write(b[done : done+m])
				done += m
			}
			return done, err
		}
		m, err = f.File.Write(b[done : done+n])
		done += m
		if err != nil {
			return done, err
		}
	}
	return done, nil
}

// WriteString writes to the file.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// ReadFrom reads from the reader.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := f.Write(b)
	return int64(n), err
}

// WriteAt is not supported.
func (f *File) WriteAt(b []byte, off int64) (int, error) { return 0, syscall.ENOTSUP }

// Truncate changes the size of the file.
func (f *File) Truncate(n int64) error {
	if _, err := begin(OpOpen, f.name, 0); err != nil {
		return err
	}
	mtx.Lock()
	if k, ok := unsynced[clean(f.name)]; ok {
		unsynced[clean(f.name)] = min(k, int(n))
	}
	mtx.Unlock()
	return f.File.Truncate(n)
}

// Sync writes the content to the disk.
func (f *File) Sync() error {
	if _, err := begin(OpSync, f.name, 0); err != nil {
		return err
	}
	mtx.Lock()
	delete(unsynced, clean(f.name))
	mtx.Unlock()
	return nil
}

// Read reads the file.
func (f *File) Read(b []byte) (int, error) {
	if _, err := begin(OpRead, f.name, 0); err != nil {
		return 0, err
	}
	return f.File.Read(b)
}

// WriteTo writes what is left of the file to the writer.
func (f *File) WriteTo(w io.Writer) (int64, error) {
	var n int64
	b := make([]byte, 4096)
	for {
		m, err := f.Read(b)
		if m > 0 {
			k, err := w.Write(b[:m])
			n += int64(k)
			if err != nil {
				return n, err
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

// ReadFile reads a file.
func ReadFile(name string) ([]byte, error) {
	if _, err := begin(OpRead, name, 0); err != nil {
		return nil, err
	}
	return real.ReadFile(name)
}

// WriteFile writes a file.
func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// Rename renames a file.
func Rename(from, to string) error {
	if _, err := begin(OpRename, from, 0); err != nil {
		return err
	}
	mtx.Lock()
	defer mtx.Unlock()
	if err := real.Rename(from, to); err != nil {
		return err
	}
	delete(unsynced, clean(to))
	if n, ok := unsynced[clean(from)]; ok {
		delete(unsynced, clean(from))
		unsynced[clean(to)] = n
	}
	return nil
}

// Remove removes a file.
func Remove(name string) error {
	if _, err := begin(OpRemove, name, 0); err != nil {
		return err
	}
	mtx.Lock()
	delete(unsynced, clean(name))
	mtx.Unlock()
	return real.Remove(name)
}

// RemoveAll removes a file or a directory with its content.
func RemoveAll(name string) error {
	if st, err := real.Lstat(name); err == nil && st.IsDir() {
		entries, err := real.ReadDir(name)
		if err != nil {
			return err
		}
		for _, e := range entries {
			if err := RemoveAll(filepath.Join(name, e.Name())); err != nil {
				return err
			}
		}
	}
	err := Remove(name)
	if IsNotExist(err) {
		return nil
	}
	return err
}

// MkdirTemp creates a temporary directory.
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	for {
		mtx.Lock()
		temps++
		n := temps
		mtx.Unlock()
		name := filepath.Join(dir, pattern+itoa(n))
		err := Mkdir(name, 0o700)
		if !IsExist(err) {
			return name, err
		}
	}
}

// Stat describes a file.
func Stat(name string) (FileInfo, error) {
	if _, err := begin(OpStat, name, 0); err != nil {
		return nil, err
	}
	return real.Stat(name)
}

// Lstat describes a file.
func Lstat(name string) (FileInfo, error) {
	if _, err := begin(OpStat, name, 0); err != nil {
		return nil, err
	}
	return real.Lstat(name)
}

// Readlink returns the destination of a symbolic link.
func Readlink(name string) (string, error) { return real.Readlink(name) }

// ReadDir reads a directory.
func ReadDir(name string) ([]DirEntry, error) {
	if _, err := begin(OpRead, name, 0); err != nil {
		return nil, err
	}
	return real.ReadDir(name)
}

// Chmod changes the mode of a file.
func Chmod(name string, mode FileMode) error {
	if _, err := begin(OpStat, name, 0); err != nil {
		return err
	}
	return real.Chmod(name, mode)
}

// Mkdir creates a directory.
func Mkdir(name string, perm FileMode) error {
	if _, err := begin(OpOpen, name, 0); err != nil {
		return err
	}
	return real.Mkdir(name, perm)
}

// MkdirAll creates a directory.
func MkdirAll(name string, perm FileMode) error {
	if _, err := begin(OpOpen, name, 0); err != nil {
		return err
	}
	return real.MkdirAll(name, perm)
}

// UserCacheDir returns the directory for cached data of the user.
func UserCacheDir() (string, error) {
	if Temp != "" {
		return filepath.Join(Temp, "cache"), nil
	}
	return real.UserCacheDir()
}

// Exit ends the process.
func Exit(code int) {
	mtx.Lock()
	f := Exited
	mtx.Unlock()
	if f != nil {
		f(code)
	}
	runtime.Goexit()
}

var _ fs.FileInfo = FileInfo(nil)
