// Package deps imports what later checks need, so that go.sum covers it.
package deps

import (
	_ "github.com/vivint/rothko"
	_ "github.com/vivint/rothko/api"
	_ "github.com/vivint/rothko/config"
	_ "github.com/vivint/rothko/dist/tdigest"
	_ "github.com/vivint/rothko/draw/graph"
	_ "github.com/vivint/rothko/internal/tgzfs"
	_ "github.com/vivint/rothko/internal/tmplfs"
	_ "go.uber.org/zap"
)
