// Package world is the simulated operating system of one process: its argv,
// stdin, stdout, stderr, a small file system, its signals and its exit status.
// A fault plan decides which call fails, and how.
package world

import (
	"bytes"
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/pandatix/go-abnf/zsim/simrt"
)

// Fault makes the K-th (0-based) call of Op on Target misbehave.
//
//	op:   open create read write close sync rename remove
//	kind: EIO ENOSPC EPIPE EACCES ENOENT EBADF EROFS EDQUOT short
//
// For read and write, N bytes are transferred before the error. kind "short" on
// read is a legal short read (no error); on write it is not used.
type Fault struct {
	Op     string `json:"op"`
	Target string `json:"target"` // stdin, stdout, stderr, file
	K      int    `json:"k"`
	Kind   string `json:"kind"`
	N      int    `json:"n"`
}

type Signal struct {
	Step int64 `json:"step"`
	Term bool  `json:"term"`
}

type inode struct {
	data []byte
	mode fs.FileMode
	dir  bool
}

type World struct {
	Args    []string
	Stdin   []byte
	stdinAt int
	files   map[string]*inode
	Faults  []Fault
	count   map[string]int

	Stdout, Stderr bytes.Buffer
	Injected       []Fault // faults that actually fired
	Delivered      int     // signals delivered to the process
	DeliveredAt    int64
	Writes         int
	tmp            int

	notify []notified
	Exit   func(code int)
}

type notified struct {
	ch   chan<- os.Signal
	sigs []os.Signal
}

var W *World

func New(args []string, stdin []byte, files map[string][]byte, faults []Fault) *World {
	w := &World{Args: args, Stdin: stdin, files: map[string]*inode{}, Faults: faults, count: map[string]int{}}
	w.files["."] = &inode{dir: true, mode: 0o755 | fs.ModeDir}
	w.files["/"] = &inode{dir: true, mode: 0o755 | fs.ModeDir}
	w.files["/tmp"] = &inode{dir: true, mode: 0o777 | fs.ModeDir}
	for k, v := range files {
		w.files[clean(k)] = &inode{data: append([]byte(nil), v...), mode: 0o644}
	}
	W = w
	return w
}

// File returns the content of a simulated file.
func (w *World) File(name string) ([]byte, bool) {
	n, ok := w.files[clean(name)]
	if !ok || n.dir {
		return nil, false
	}
	return n.data, true
}

// Counts is how often each operation was performed on each target.
func (w *World) Counts() map[string]int { return w.count }

// Names lists the regular files present.
func (w *World) Names() []string {
	var out []string
	for k, n := range w.files {
		if !n.dir {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func clean(p string) string { return path.Clean(p) }

func errno(kind string) error {
	switch kind {
	case "EIO":
		return syscall.EIO
	case "ENOSPC":
		return syscall.ENOSPC
	case "EPIPE":
		return syscall.EPIPE
	case "EACCES":
		return syscall.EACCES
	case "ENOENT":
		return syscall.ENOENT
	case "EBADF":
		return syscall.EBADF
	case "EROFS":
		return syscall.EROFS
	case "EDQUOT":
		return syscall.EDQUOT
	}
	return syscall.EIO
}

func (w *World) fault(op, target string) *Fault {
	key := op + ":" + target
	k := w.count[key]
	w.count[key]++
	for i := range w.Faults {
		f := &w.Faults[i]
		if f.Op == op && f.Target == target && f.K == k {
			w.Injected = append(w.Injected, *f)
			return f
		}
	}
	return nil
}

// Handle is an open file description.
type Handle struct {
	name   string
	target string // stdin stdout stderr file
	n      *inode
	pos    int
	flag   int
	closed bool
	broken error // a failed stream stays failed
}

func (h *Handle) Name() string { return h.name }

func perr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

func Std(name string) *Handle { return &Handle{name: "/dev/" + name, target: name} }

func OpenFile(name string, flag int, perm fs.FileMode) (*Handle, error) {
	simrt.Y()
	w := W
	c := clean(name)
	op := "open"
	if flag&os.O_CREATE != 0 {
		op = "create"
	}
	switch c {
	case "/dev/stdin":
		return Std("stdin"), nil
	case "/dev/stdout":
		return Std("stdout"), nil
	case "/dev/stderr":
		return Std("stderr"), nil
	}
	if f := w.fault(op, "file"); f != nil {
		return nil, perr("open", name, errno(f.Kind))
	}
	n, ok := w.files[c]
	if ok && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if !ok {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if d := path.Dir(c); d != "." {
			if pd, ok := w.files[d]; !ok || !pd.dir {
				return nil, perr("open", name, syscall.ENOENT)
			}
		}
		n = &inode{mode: perm}
		w.files[c] = n
	}
	if n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if flag&os.O_TRUNC != 0 {
		n.data = nil
	}
	h := &Handle{name: name, target: "file", n: n, flag: flag}
	if flag&os.O_APPEND != 0 {
		h.pos = len(n.data)
	}
	return h, nil
}

func (h *Handle) Read(p []byte) (int, error) {
	simrt.Y()
	if h == nil {
		return 0, os.ErrInvalid
	}
	if h.closed {
		return 0, perr("read", h.name, os.ErrClosed)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if h.broken != nil {
		return 0, perr("read", h.name, h.broken)
	}
	w := W
	var src []byte
	var at *int
	switch h.target {
	case "stdin":
		src, at = w.Stdin, &w.stdinAt
	case "file":
		if h.n.dir {
			return 0, perr("read", h.name, syscall.EISDIR)
		}
		if h.flag&(os.O_WRONLY) != 0 {
			return 0, perr("read", h.name, syscall.EBADF)
		}
		src, at = h.n.data, &h.pos
	default:
		return 0, perr("read", h.name, syscall.EBADF)
	}
	avail := len(src) - *at
	if avail < 0 {
		avail = 0
	}
	n := len(p)
	if n > avail {
		n = avail
	}
	if f := w.fault("read", h.target); f != nil {
		if n > f.N {
			n = f.N
		}
		if f.Kind == "short" {
			if n == 0 && avail > 0 {
				n = 1
			}
		} else {
			copy(p, src[*at:*at+n])
			*at += n
			h.broken = errno(f.Kind)
			if n > 0 {
				return n, nil // the error surfaces on the next read
			}
			return 0, perr("read", h.name, h.broken)
		}
	}
	copy(p, src[*at:*at+n])
	*at += n
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (h *Handle) Write(p []byte) (int, error) {
	simrt.Y()
	if h == nil {
		return 0, os.ErrInvalid
	}
	if h.closed {
		return 0, perr("write", h.name, os.ErrClosed)
	}
	w := W
	w.Writes++
	n := len(p)
	err := h.broken
	if err != nil {
		n = 0
	} else if len(p) > 0 {
		if f := w.fault("write", h.target); f != nil {
			if n > f.N {
				n = f.N
			}
			err = errno(f.Kind)
			h.broken = err // full disk, dead pipe, broken device: it stays so
		}
	}
	switch h.target {
	case "stdout":
		w.Stdout.Write(p[:n])
	case "stderr":
		w.Stderr.Write(p[:n])
	case "file":
		if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
			return 0, perr("write", h.name, syscall.EBADF)
		}
		for len(h.n.data) < h.pos {
			h.n.data = append(h.n.data, 0)
		}
		h.n.data = append(h.n.data[:h.pos:h.pos], p[:n]...)
		h.pos += n
	default:
		return 0, perr("write", h.name, syscall.EBADF)
	}
	if err != nil {
		return n, perr("write", h.name, err)
	}
	return n, nil
}

func (h *Handle) WriteString(s string) (int, error) { return h.Write([]byte(s)) }

func (h *Handle) Close() error {
	simrt.Y()
	if h == nil {
		return os.ErrInvalid
	}
	if h.closed {
		return perr("close", h.name, os.ErrClosed)
	}
	h.closed = true
	if h.target == "file" && h.flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		if f := W.fault("close", h.target); f != nil {
			// Delayed allocation: a failing close means data was lost.
			if f.N < len(h.n.data) {
				h.n.data = h.n.data[:f.N]
			}
			return perr("close", h.name, errno(f.Kind))
		}
	}
	return nil
}

func (h *Handle) Sync() error {
	if f := W.fault("sync", h.target); f != nil {
		return perr("sync", h.name, errno(f.Kind))
	}
	return nil
}

func (h *Handle) Seek(off int64, whence int) (int64, error) {
	if h.target != "file" {
		return 0, perr("seek", h.name, syscall.ESPIPE)
	}
	switch whence {
	case 0:
		h.pos = int(off)
	case 1:
		h.pos += int(off)
	case 2:
		h.pos = len(h.n.data) + int(off)
	}
	return int64(h.pos), nil
}

func (h *Handle) Truncate(n int64) error {
	for int64(len(h.n.data)) < n {
		h.n.data = append(h.n.data, 0)
	}
	h.n.data = h.n.data[:n]
	return nil
}

func (h *Handle) Fd() uintptr {
	switch h.target {
	case "stdin":
		return 0
	case "stdout":
		return 1
	case "stderr":
		return 2
	}
	return 9
}

type info struct {
	name string
	n    *inode
	mode fs.FileMode
}

func (i info) Name() string { return path.Base(i.name) }
func (i info) Size() int64 {
	if i.n == nil {
		return 0
	}
	return int64(len(i.n.data))
}
func (i info) Mode() fs.FileMode  { return i.mode }
func (i info) ModTime() time.Time { return simrt.Now() }
func (i info) IsDir() bool        { return i.mode.IsDir() }
func (i info) Sys() any           { return nil }

func (h *Handle) Stat() (fs.FileInfo, error) {
	if h.n == nil {
		return info{h.name, nil, fs.ModeNamedPipe | 0o600}, nil
	}
	return info{h.name, h.n, h.n.mode}, nil
}
func (h *Handle) Chmod(m fs.FileMode) error { return nil }

func Stat(name string) (fs.FileInfo, error) {
	n, ok := W.files[clean(name)]
	if !ok {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{name, n, n.mode}, nil
}

func ReadFile(name string) ([]byte, error) {
	h, err := OpenFile(name, os.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	return readAll(h)
}

func readAll(r io.Reader) ([]byte, error) {
	var b []byte
	buf := make([]byte, 512)
	for {
		n, err := r.Read(buf)
		b = append(b, buf[:n]...)
		if err == io.EOF {
			return b, nil
		}
		if err != nil {
			return b, err
		}
	}
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	h, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = h.Write(data)
	if e := h.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func Remove(name string) error {
	if f := W.fault("remove", "file"); f != nil {
		return perr("remove", name, errno(f.Kind))
	}
	if _, ok := W.files[clean(name)]; !ok {
		return perr("remove", name, syscall.ENOENT)
	}
	delete(W.files, clean(name))
	return nil
}

func Rename(a, b string) error {
	if f := W.fault("rename", "file"); f != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: errno(f.Kind)}
	}
	n, ok := W.files[clean(a)]
	if !ok {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	delete(W.files, clean(a))
	W.files[clean(b)] = n
	return nil
}

func Mkdir(name string, perm fs.FileMode) error {
	if _, ok := W.files[clean(name)]; ok {
		return perr("mkdir", name, syscall.EEXIST)
	}
	W.files[clean(name)] = &inode{dir: true, mode: perm | fs.ModeDir}
	return nil
}

func MkdirAll(name string, perm fs.FileMode) error {
	for d := clean(name); d != "." && d != "/"; d = path.Dir(d) {
		if n, ok := W.files[d]; ok && !n.dir {
			return perr("mkdir", name, syscall.ENOTDIR)
		}
		if _, ok := W.files[d]; !ok {
			W.files[d] = &inode{dir: true, mode: perm | fs.ModeDir}
		}
	}
	return nil
}

func CreateTemp(dir, pattern string) (*Handle, error) {
	if dir == "" {
		dir = "/tmp"
	}
	W.tmp++
	name := path.Join(dir, strings.Replace(pattern, "*", "", 1)+"sim"+string(rune('a'+W.tmp)))
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

// Signals -------------------------------------------------------------------

func Notify(ch chan<- os.Signal, sigs ...os.Signal) {
	W.notify = append(W.notify, notified{ch, sigs})
}

func StopNotify(ch chan<- os.Signal) {
	var keep []notified
	for _, n := range W.notify {
		if n.ch != ch {
			keep = append(keep, n)
		}
	}
	W.notify = keep
}

// Deliver sends a signal to the simulated process. Without a handler the
// default action terminates it.
func Deliver(term bool) {
	var s os.Signal = os.Interrupt
	code := 130
	if term {
		s, code = syscall.SIGTERM, 143
	}
	hit := false
	for _, n := range W.notify {
		want := len(n.sigs) == 0
		for _, x := range n.sigs {
			if x == s {
				want = true
			}
		}
		if !want {
			continue
		}
		hit = true
		select {
		case n.ch <- s:
		default:
		}
	}
	W.Delivered++
	W.DeliveredAt = simrt.Steps()
	if !hit {
		W.Exit(code)
	}
}

var ErrExit = errors.New("sim: exited")
