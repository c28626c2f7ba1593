// Package scrand stands in for crypto/rand.
package scrand

import (
	"io"

	"ecksbee.com/telefacts/vsim/srand"
)

var Reader io.Reader = srand.Reader

func Read(b []byte) (int, error) { return srand.Reader.Read(b) }
