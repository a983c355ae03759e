//go:build !ovmaps

package main

var (
	mapsOn   bool
	mapsPos  int
	mapsSeq  [1024]uint8
	mapsSeed uint64
)

const mapsOverlay = false
