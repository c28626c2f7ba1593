// Package slog stands in for the parts of log that end the process.
package slog

import (
	"fmt"
	"io"
	"log"

	"ecksbee.com/telefacts/vsim/sos"
)

// Logger is log.Logger in a simulated process.
type Logger struct{ *log.Logger }

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{log.New(w, prefix, flag)} }
func Default() *Logger                                 { return &Logger{log.Default()} }

func (l *Logger) Fatal(v ...any) {
	l.Output(2, fmt.Sprint(v...))
	sos.Exit(1)
}

func (l *Logger) Fatalf(format string, v ...any) {
	l.Output(2, fmt.Sprintf(format, v...))
	sos.Exit(1)
}

func (l *Logger) Fatalln(v ...any) {
	l.Output(2, fmt.Sprintln(v...))
	sos.Exit(1)
}

func Fatal(v ...any)                 { Default().Fatal(v...) }
func Fatalf(format string, v ...any) { Default().Fatalf(format, v...) }
func Fatalln(v ...any)               { Default().Fatalln(v...) }
