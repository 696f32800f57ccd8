// Package log writes to the node's standard error.
package log

import (
	"fmt"
	"io"
	real "log"

	"simmod/simrt"
)

// Logger is a logger.
type Logger struct {
	w      io.Writer
	prefix string
	flags  int
}

type stderr struct{}

func (stderr) Write(b []byte) (int, error) {
	simrt.Stderr(string(b))
	return len(b), nil
}

var std = &Logger{w: stderr{}, flags: real.LstdFlags}

// New returns a logger.
func New(w io.Writer, prefix string, flags int) *Logger { return &Logger{w, prefix, flags} }

// Default is the standard logger.
func Default() *Logger { return std }

func (l *Logger) out(s string) {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	fmt.Fprint(l.w, l.prefix+s)
}

func (l *Logger) Print(v ...any)               { l.out(fmt.Sprint(v...)) }
func (l *Logger) Printf(f string, v ...any)    { l.out(fmt.Sprintf(f, v...)) }
func (l *Logger) Println(v ...any)             { l.out(fmt.Sprintln(v...)) }
func (l *Logger) Output(d int, s string) error { l.out(s); return nil }
func (l *Logger) SetOutput(w io.Writer)        { l.w = w }
func (l *Logger) SetPrefix(p string)           { l.prefix = p }
func (l *Logger) SetFlags(f int)               { l.flags = f }
func (l *Logger) Prefix() string               { return l.prefix }
func (l *Logger) Flags() int                   { return l.flags }
func (l *Logger) Writer() io.Writer            { return l.w }
func (l *Logger) Fatal(v ...any)               { s := fmt.Sprint(v...); l.out(s); simrt.Die("log.Fatal: "+s, 1) }
func (l *Logger) Fatalf(f string, v ...any) {
	s := fmt.Sprintf(f, v...)
	l.out(s)
	simrt.Die("log.Fatal: "+s, 1)
}
func (l *Logger) Fatalln(v ...any)          { s := fmt.Sprintln(v...); l.out(s); simrt.Die("log.Fatal: "+s, 1) }
func (l *Logger) Panic(v ...any)            { s := fmt.Sprint(v...); l.out(s); panic(s) }
func (l *Logger) Panicf(f string, v ...any) { s := fmt.Sprintf(f, v...); l.out(s); panic(s) }
func (l *Logger) Panicln(v ...any)          { s := fmt.Sprintln(v...); l.out(s); panic(s) }

func Print(v ...any)               { std.Print(v...) }
func Printf(f string, v ...any)    { std.Printf(f, v...) }
func Println(v ...any)             { std.Println(v...) }
func Output(d int, s string) error { return std.Output(d, s) }
func SetOutput(w io.Writer)        {}
func SetPrefix(p string)           {}
func SetFlags(f int)               {}
func Prefix() string               { return "" }
func Flags() int                   { return std.flags }
func Writer() io.Writer            { return std.w }
func Fatal(v ...any)               { std.Fatal(v...) }
func Fatalf(f string, v ...any)    { std.Fatalf(f, v...) }
func Fatalln(v ...any)             { std.Fatalln(v...) }
func Panic(v ...any)               { std.Panic(v...) }
func Panicf(f string, v ...any)    { std.Panicf(f, v...) }
func Panicln(v ...any)             { std.Panicln(v...) }
