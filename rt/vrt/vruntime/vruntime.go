// Package vruntime replaces scheduling functions of runtime.
package vruntime

import "ustack/vrt"

func Gosched() { vrt.Point("gosched") }
