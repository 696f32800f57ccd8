// Package syscall is the simulated kernel.
package syscall

import (
	real "syscall"

	"simmod/shim/os"
	"simmod/simrt"
)

// SO_REUSEPORT is missing on linux/amd64.
const SO_REUSEPORT = 0xf

func Statfs(p string, st *real.Statfs_t) error { return simrt.Statfs(p, st) }
func stat(p string, follow bool, st *real.Stat_t) error {
	fi, err := simrt.Stat(p, follow)
	if err != nil {
		if pe, ok := err.(*os.PathError); ok {
			return pe.Err
		}
		return err
	}
	*st = *fi.Sys().(*real.Stat_t)
	return nil
}
func Stat(p string, st *real.Stat_t) error                { return stat(p, true, st) }
func Lstat(p string, st *real.Stat_t) error               { return stat(p, false, st) }
func setopt() error {
	if n := simrt.Here(); n != nil && n.OptErr {
		n.W.Injected("socket option error")
		return real.ENOPROTOOPT
	}
	return nil
}
func SetsockoptInt(fd, level, opt, v int) error           { return setopt() }
func SetsockoptString(fd, level, opt int, v string) error { return setopt() }
func SetsockoptByte(fd, level, opt int, v byte) error     { return setopt() }
func Getpid() int                                         { return os.Getpid() }
func Getuid() int                                         { return 0 }
func Getgid() int                                         { return 0 }
func Getenv(k string) (string, bool)                      { return os.LookupEnv(k) }
func Exit(code int)                                       { os.Exit(code) }
func Getwd() (string, error)                              { return os.Getwd() }
func Unlink(p string) error                               { return os.Remove(p) }
func Sync()                                               {}
