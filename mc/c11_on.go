//go:build ovmaps

package main

import _ "unsafe"

// The choices of the overlay of the Go runtime (see overlay/maps.sh).

//go:linkname mapsOn internal/runtime/maps.McOn
var mapsOn bool

//go:linkname mapsPos internal/runtime/maps.McPos
var mapsPos int

//go:linkname mapsSeq internal/runtime/maps.McSeq
var mapsSeq [1024]uint8

//go:linkname mapsSeed internal/runtime/maps.McSeed
var mapsSeed uint64

const mapsOverlay = true
