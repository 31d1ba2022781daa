package main

import (
	"testing"

	"github.com/vivint/rothko/database/files/zzverif/vkit"
)

func FuzzCheck(f *testing.F) { vkit.Fuzz(f, main) }
