// Package vlog replaces the output and exit functions of log.
package vlog

import (
	"fmt"

	"ustack/vrt"
)

func Print(a ...any)                   {}
func Println(a ...any)                 {}
func Printf(f string, a ...any)        {}
func Fatal(a ...any)                   { vrt.Fatal("log.Fatal: " + fmt.Sprint(a...)) }
func Fatalln(a ...any)                 { vrt.Fatal("log.Fatalln: " + fmt.Sprint(a...)) }
func Fatalf(f string, a ...any)        { vrt.Fatal("log.Fatalf: " + fmt.Sprintf(f, a...)) }
func Panic(a ...any)                   { panic(fmt.Sprint(a...)) }
func Panicln(a ...any)                 { panic(fmt.Sprint(a...)) }
func Panicf(f string, a ...any)        { panic(fmt.Sprintf(f, a...)) }
func Output(depth int, s string) error { return nil }
