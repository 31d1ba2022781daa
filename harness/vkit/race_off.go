//go:build !race

package vkit

const limitMemory = true
