// Package ioutil: io/ioutil on the simulated disk.
package ioutil

import (
	"io"

	os "verifsim/simos"
)

var (
	Discard   = io.Discard
	ReadAll   = io.ReadAll
	NopCloser = io.NopCloser
	ReadFile  = os.ReadFile
	WriteFile = os.WriteFile
	TempFile  = os.CreateTemp
)
