// Package vfmt replaces the standard-output functions of fmt.
package vfmt

func Print(a ...any) (int, error)            { return 0, nil }
func Println(a ...any) (int, error)          { return 0, nil }
func Printf(f string, a ...any) (int, error) { return 0, nil }
