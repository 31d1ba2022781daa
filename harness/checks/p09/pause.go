package main

import (
	"runtime"
	"time"
)

func pause(i int) {
	if i < 100 {
		runtime.Gosched()
		return
	}
	time.Sleep(300 * time.Microsecond)
}
