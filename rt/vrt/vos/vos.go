// Package vos replaces file and process functions of os: rewritten code never
// touches the real file system, only the virtual socket name space of vnet.
package vos

import (
	"io/fs"
	"os"
	"syscall"
	"time"

	"ustack/vrt"
	"ustack/vrt/vnet"
)

func Exit(code int) { vrt.Fatal("os.Exit") }

func perr(op, path string, e error) error { return &os.PathError{Op: op, Path: path, Err: e} }

func Remove(path string) error {
	if vnet.Unlink(path) {
		return nil
	}
	return perr("remove", path, syscall.ENOENT)
}

func RemoveAll(path string) error { vnet.Unlink(path); return nil }

type info struct{ name string }

func (i info) Name() string      { return i.name }
func (i info) Size() int64       { return 0 }
func (i info) Mode() fs.FileMode { return fs.ModeSocket | 0o755 }
func (i info) IsDir() bool       { return false }
func (i info) Sys() any          { return nil }

func Stat(path string) (os.FileInfo, error) {
	if vnet.FileExists(path) {
		return fileInfo{info{path}}, nil
	}
	return nil, perr("stat", path, syscall.ENOENT)
}

func Lstat(path string) (os.FileInfo, error) { return Stat(path) }

func Chmod(path string, m os.FileMode) error    { return nil }
func Mkdir(path string, m os.FileMode) error    { return nil }
func MkdirAll(path string, m os.FileMode) error { return nil }
func Rename(a, b string) error                  { return perr("rename", a, syscall.EPERM) }

type fileInfo struct{ info }

func (fileInfo) ModTime() time.Time { return time.Time{} }
