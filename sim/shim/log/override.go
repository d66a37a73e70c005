package log

import (
	"fmt"
	"io"
	real "log"

	"github.com/pandatix/go-abnf/zsim/shim/os"
)

// Logger adds the simulated exit to the real one.
type Logger struct{ *real.Logger }

func (l *Logger) Fatal(v ...any)            { l.Logger.Print(v...); os.Exit(1) }
func (l *Logger) Fatalf(f string, v ...any) { l.Logger.Printf(f, v...); os.Exit(1) }
func (l *Logger) Fatalln(v ...any)          { l.Logger.Println(v...); os.Exit(1) }

var std = New(os.Stderr, "", 0)

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{real.New(w, prefix, 0)} }
func Default() *Logger                                 { return std }
func SetOutput(w io.Writer)                            { std.SetOutput(w) }
func SetFlags(int)                                     {}
func SetPrefix(p string)                               { std.SetPrefix(p) }
func Flags() int                                       { return 0 }
func Prefix() string                                   { return std.Prefix() }
func Writer() io.Writer                                { return std.Writer() }
func Output(d int, s string) error                     { return std.Output(d, s) }
func Print(v ...any)                                   { std.Print(v...) }
func Printf(f string, v ...any)                        { std.Printf(f, v...) }
func Println(v ...any)                                 { std.Println(v...) }
func Fatal(v ...any)                                   { std.Fatal(v...) }
func Fatalf(f string, v ...any)                        { std.Fatalf(f, v...) }
func Fatalln(v ...any)                                 { std.Fatalln(v...) }
func Panic(v ...any)                                   { s := fmt.Sprint(v...); std.Print(s); panic(s) }
func Panicf(f string, v ...any)                        { s := fmt.Sprintf(f, v...); std.Print(s); panic(s) }
func Panicln(v ...any)                                 { s := fmt.Sprintln(v...); std.Print(s); panic(s) }
