// The module path sits below github.com/vivint/rothko/database/files so that
// the harness may import rothko's internal packages without touching /repo.
module github.com/vivint/rothko/database/files/zzverif

go 1.23

require (
	github.com/vivint/rothko v0.0.0
	go.uber.org/zap v1.9.1
	pgregory.net/rapid v1.3.0
)

require (
	github.com/BurntSushi/toml v0.3.0 // indirect
	github.com/urfave/cli v1.20.0 // indirect
	github.com/zeebo/errs v0.2.0 // indirect
	github.com/zeebo/float16 v0.1.0 // indirect
	github.com/zeebo/tdigest v0.1.0 // indirect
	go.uber.org/atomic v1.3.2 // indirect
	go.uber.org/multierr v1.1.0 // indirect
	golang.org/x/image v0.0.0-20180708004352-c73c2afc3b81 // indirect
)

replace github.com/vivint/rothko => /repo
