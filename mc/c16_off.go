//go:build !ovfiles

package main

var (
	filesRead func(name string, b []byte, read func([]byte) (int, error)) (int, error)
	filesOpen func(name string) error
	filesStat func(name string) error
)

const filesOverlay = false
