//go:build race

package vkit

// the race detector maps terabytes
const limitMemory = false
