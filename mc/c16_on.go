//go:build ovfiles

package main

import _ "unsafe"

// The hooks of the overlay of package os (see overlay/files.sh).

//go:linkname filesRead os.McRead
var filesRead func(name string, b []byte, read func([]byte) (int, error)) (int, error)

//go:linkname filesOpen os.McOpen
var filesOpen func(name string) error

//go:linkname filesStat os.McStat
var filesStat func(name string) error

const filesOverlay = true
