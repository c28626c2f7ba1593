// Package sruntime stands in for parts of package runtime.
package sruntime

import "ecksbee.com/telefacts/vsim"

func Gosched()                        { vsim.Yield() }
func SetFinalizer(obj, finalizer any) {}
func NumCPU() int                     { return 4 }
func GC()                             {}
