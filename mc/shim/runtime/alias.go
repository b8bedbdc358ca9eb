// Code generated by cmd/genalias. DO NOT EDIT.

package runtime

import real "runtime"

var BlockProfile = real.BlockProfile

type BlockProfileRecord = real.BlockProfileRecord

var Breakpoint = real.Breakpoint
var CPUProfile = real.CPUProfile
var Caller = real.Caller
var Callers = real.Callers
var CallersFrames = real.CallersFrames

type Cleanup = real.Cleanup

const Compiler = real.Compiler

type Error = real.Error
type Frame = real.Frame
type Frames = real.Frames
type Func = real.Func

var FuncForPC = real.FuncForPC
var GC = real.GC

const GOARCH = real.GOARCH

var GOMAXPROCS = real.GOMAXPROCS

const GOOS = real.GOOS

var GOROOT = real.GOROOT
var GoroutineProfile = real.GoroutineProfile
var KeepAlive = real.KeepAlive
var LockOSThread = real.LockOSThread
var MemProfile = real.MemProfile
var MemProfileRate = real.MemProfileRate

type MemProfileRecord = real.MemProfileRecord
type MemStats = real.MemStats

var MutexProfile = real.MutexProfile
var NumCPU = real.NumCPU
var NumCgoCall = real.NumCgoCall

type PanicNilError = real.PanicNilError
type Pinner = real.Pinner

var ReadMemStats = real.ReadMemStats
var ReadTrace = real.ReadTrace
var SetBlockProfileRate = real.SetBlockProfileRate
var SetCPUProfileRate = real.SetCPUProfileRate
var SetCgoTraceback = real.SetCgoTraceback
var SetDefaultGOMAXPROCS = real.SetDefaultGOMAXPROCS
var SetFinalizer = real.SetFinalizer
var SetMutexProfileFraction = real.SetMutexProfileFraction
var Stack = real.Stack

type StackRecord = real.StackRecord

var StartTrace = real.StartTrace
var StopTrace = real.StopTrace
var ThreadCreateProfile = real.ThreadCreateProfile

type TypeAssertionError = real.TypeAssertionError

var UnlockOSThread = real.UnlockOSThread
var Version = real.Version
