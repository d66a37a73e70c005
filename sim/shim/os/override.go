package os

import (
	"io"
	"io/fs"
	real "os"

	"github.com/pandatix/go-abnf/zsim/simrt/world"
)

type File struct{ h *world.Handle }

func (f *File) Read(p []byte) (int, error) {
	if f == nil {
		return 0, real.ErrInvalid
	}
	return f.h.Read(p)
}
func (f *File) Write(p []byte) (int, error) {
	if f == nil {
		return 0, real.ErrInvalid
	}
	return f.h.Write(p)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Close() error {
	if f == nil {
		return real.ErrInvalid
	}
	return f.h.Close()
}
func (f *File) Name() string                       { return f.h.Name() }
func (f *File) Sync() error                        { return f.h.Sync() }
func (f *File) Fd() uintptr                        { return f.h.Fd() }
func (f *File) Stat() (fs.FileInfo, error)         { return f.h.Stat() }
func (f *File) Seek(o int64, w int) (int64, error) { return f.h.Seek(o, w) }
func (f *File) Truncate(n int64) error             { return f.h.Truncate(n) }
func (f *File) Chmod(m fs.FileMode) error          { return f.h.Chmod(m) }
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

var (
	Stdin  = &File{world.Std("stdin")}
	Stdout = &File{world.Std("stdout")}
	Stderr = &File{world.Std("stderr")}
	Args   []string
)

func wrap(h *world.Handle, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{h}, nil
}

func Exit(code int) {
	world.W.Exit(code)
	select {}
}

func Open(name string) (*File, error) { return wrap(world.OpenFile(name, real.O_RDONLY, 0)) }
func Create(name string) (*File, error) {
	return wrap(world.OpenFile(name, real.O_RDWR|real.O_CREATE|real.O_TRUNC, 0o666))
}
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	return wrap(world.OpenFile(name, flag, perm))
}
func CreateTemp(dir, pattern string) (*File, error) { return wrap(world.CreateTemp(dir, pattern)) }
func ReadFile(name string) ([]byte, error)          { return world.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return world.WriteFile(name, data, perm)
}
func Remove(name string) error                     { return world.Remove(name) }
func RemoveAll(name string) error                  { world.Remove(name); return nil }
func Rename(a, b string) error                     { return world.Rename(a, b) }
func Mkdir(name string, perm fs.FileMode) error    { return world.Mkdir(name, perm) }
func MkdirAll(name string, perm fs.FileMode) error { return world.MkdirAll(name, perm) }
func Stat(name string) (fs.FileInfo, error)        { return world.Stat(name) }
func Lstat(name string) (fs.FileInfo, error)       { return world.Stat(name) }
func Chmod(name string, m fs.FileMode) error       { return nil }
func Getenv(string) string                         { return "" }
func LookupEnv(string) (string, bool)              { return "", false }
func Environ() []string                            { return nil }
func Getpid() int                                  { return 4242 }
func Getwd() (string, error)                       { return "/", nil }
