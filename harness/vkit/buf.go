package vkit

import (
	"bytes"
	"sync"
)

// Buf collects the output of a process, and may be read while it runs.
type Buf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *Buf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}

func (b *Buf) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.String()
}

func (b *Buf) Len() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Len()
}
