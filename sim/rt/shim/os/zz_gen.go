// Code generated by shimgen. DO NOT EDIT.

package os

import (
	real "os"
	"simmod/simrt"
)

var _ = simrt.Cur

var Clearenv = simrt.UnsupFunc(real.Clearenv, "os.Clearenv")
var CopyFS = simrt.UnsupFunc(real.CopyFS, "os.CopyFS")

const DevNull = real.DevNull

type DirEntry = real.DirEntry

var DirFS = simrt.UnsupFunc(real.DirFS, "os.DirFS")
var ErrClosed = real.ErrClosed
var ErrDeadlineExceeded = real.ErrDeadlineExceeded
var ErrExist = real.ErrExist
var ErrInvalid = real.ErrInvalid
var ErrNoDeadline = real.ErrNoDeadline
var ErrNoHandle = real.ErrNoHandle
var ErrNotExist = real.ErrNotExist
var ErrPermission = real.ErrPermission
var ErrProcessDone = real.ErrProcessDone
var Expand = real.Expand

type FileInfo = real.FileInfo
type FileMode = real.FileMode

var Getgroups = simrt.UnsupFunc(real.Getgroups, "os.Getgroups")
var Getpagesize = real.Getpagesize
var IsExist = real.IsExist
var IsNotExist = real.IsNotExist
var IsPathSeparator = real.IsPathSeparator
var IsPermission = real.IsPermission
var IsTimeout = real.IsTimeout

type LinkError = real.LinkError

const ModeAppend = real.ModeAppend
const ModeCharDevice = real.ModeCharDevice
const ModeDevice = real.ModeDevice
const ModeDir = real.ModeDir
const ModeExclusive = real.ModeExclusive
const ModeIrregular = real.ModeIrregular
const ModeNamedPipe = real.ModeNamedPipe
const ModePerm = real.ModePerm
const ModeSetgid = real.ModeSetgid
const ModeSetuid = real.ModeSetuid
const ModeSocket = real.ModeSocket
const ModeSticky = real.ModeSticky
const ModeSymlink = real.ModeSymlink
const ModeTemporary = real.ModeTemporary
const ModeType = real.ModeType

var NewSyscallError = real.NewSyscallError

const O_APPEND = real.O_APPEND
const O_CREATE = real.O_CREATE
const O_EXCL = real.O_EXCL
const O_RDONLY = real.O_RDONLY
const O_RDWR = real.O_RDWR
const O_SYNC = real.O_SYNC
const O_TRUNC = real.O_TRUNC
const O_WRONLY = real.O_WRONLY

type PathError = real.PathError

const PathListSeparator = real.PathListSeparator
const PathSeparator = real.PathSeparator

var Pipe = simrt.UnsupFunc(real.Pipe, "os.Pipe")

const SEEK_CUR = real.SEEK_CUR
const SEEK_END = real.SEEK_END
const SEEK_SET = real.SEEK_SET

var SameFile = real.SameFile

type SyscallError = real.SyscallError

var UserCacheDir = simrt.UnsupFunc(real.UserCacheDir, "os.UserCacheDir")
var UserConfigDir = simrt.UnsupFunc(real.UserConfigDir, "os.UserConfigDir")
