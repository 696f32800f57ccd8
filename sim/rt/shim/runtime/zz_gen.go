// Code generated by shimgen. DO NOT EDIT.

package runtime

import (
	real "runtime"
	"simmod/simrt"
)

var _ = simrt.Cur

var BlockProfile = simrt.UnsupFunc(real.BlockProfile, "runtime.BlockProfile")

type BlockProfileRecord = real.BlockProfileRecord

var Breakpoint = simrt.UnsupFunc(real.Breakpoint, "runtime.Breakpoint")
var CPUProfile = simrt.UnsupFunc(real.CPUProfile, "runtime.CPUProfile")
var Caller = real.Caller
var Callers = real.Callers
var CallersFrames = real.CallersFrames

type Cleanup = real.Cleanup

const Compiler = real.Compiler

type Error = real.Error
type Frame = real.Frame
type Frames = real.Frames
type Func = real.Func

var FuncForPC = real.FuncForPC
var GC = real.GC

const GOARCH = real.GOARCH
const GOOS = real.GOOS

var GOROOT = real.GOROOT
var GoroutineProfile = simrt.UnsupFunc(real.GoroutineProfile, "runtime.GoroutineProfile")
var KeepAlive = real.KeepAlive
var LockOSThread = simrt.UnsupFunc(real.LockOSThread, "runtime.LockOSThread")
var MemProfile = simrt.UnsupFunc(real.MemProfile, "runtime.MemProfile")
var MemProfileRate = real.MemProfileRate

type MemProfileRecord = real.MemProfileRecord
type MemStats = real.MemStats

var MutexProfile = simrt.UnsupFunc(real.MutexProfile, "runtime.MutexProfile")
var NumCPU = real.NumCPU
var NumCgoCall = simrt.UnsupFunc(real.NumCgoCall, "runtime.NumCgoCall")

type PanicNilError = real.PanicNilError
type Pinner = real.Pinner

var ReadMemStats = real.ReadMemStats
var ReadTrace = simrt.UnsupFunc(real.ReadTrace, "runtime.ReadTrace")
var SetBlockProfileRate = simrt.UnsupFunc(real.SetBlockProfileRate, "runtime.SetBlockProfileRate")
var SetCPUProfileRate = simrt.UnsupFunc(real.SetCPUProfileRate, "runtime.SetCPUProfileRate")
var SetCgoTraceback = simrt.UnsupFunc(real.SetCgoTraceback, "runtime.SetCgoTraceback")
var SetDefaultGOMAXPROCS = simrt.UnsupFunc(real.SetDefaultGOMAXPROCS, "runtime.SetDefaultGOMAXPROCS")
var SetFinalizer = simrt.UnsupFunc(real.SetFinalizer, "runtime.SetFinalizer")
var SetMutexProfileFraction = simrt.UnsupFunc(real.SetMutexProfileFraction, "runtime.SetMutexProfileFraction")
var Stack = real.Stack

type StackRecord = real.StackRecord

var StartTrace = simrt.UnsupFunc(real.StartTrace, "runtime.StartTrace")
var StopTrace = simrt.UnsupFunc(real.StopTrace, "runtime.StopTrace")
var ThreadCreateProfile = simrt.UnsupFunc(real.ThreadCreateProfile, "runtime.ThreadCreateProfile")

type TypeAssertionError = real.TypeAssertionError

var UnlockOSThread = simrt.UnsupFunc(real.UnlockOSThread, "runtime.UnlockOSThread")
var Version = real.Version
