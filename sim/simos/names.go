package os

import (
	realos "os"
	"time"
)

type (
	Time         = time.Time
	FileInfo     = realos.FileInfo
	FileMode     = realos.FileMode
	PathError    = realos.PathError
	LinkError    = realos.LinkError
	SyscallError = realos.SyscallError
	Signal       = realos.Signal
	DirEntry     = realos.DirEntry
)

const (
	O_RDONLY = realos.O_RDONLY
	O_WRONLY = realos.O_WRONLY
	O_RDWR   = realos.O_RDWR
	O_APPEND = realos.O_APPEND
	O_CREATE = realos.O_CREATE
	O_EXCL   = realos.O_EXCL
	O_SYNC   = realos.O_SYNC
	O_TRUNC  = realos.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	ModePerm      = realos.ModePerm
	ModeDir       = realos.ModeDir
	ModeAppend    = realos.ModeAppend
	ModeType      = realos.ModeType
	DevNull       = realos.DevNull
	PathSeparator = realos.PathSeparator
)

var (
	ErrInvalid          = realos.ErrInvalid
	ErrPermission       = realos.ErrPermission
	ErrExist            = realos.ErrExist
	ErrNotExist         = realos.ErrNotExist
	ErrClosed           = realos.ErrClosed
	ErrDeadlineExceeded = realos.ErrDeadlineExceeded

	IsExist         = realos.IsExist
	IsNotExist      = realos.IsNotExist
	IsPermission    = realos.IsPermission
	IsTimeout       = realos.IsTimeout
	IsPathSeparator = realos.IsPathSeparator
	NewSyscallError = realos.NewSyscallError
)
