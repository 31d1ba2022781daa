// Package fakedb has a database that refuses everything, to embed.
package fakedb

import (
	"context"
	"errors"

	"github.com/vivint/rothko/database"
)

// DB implements database.DB.
type DB struct{}

var errUnused = errors.New("unused")

func (DB) Queue(ctx context.Context, metric string, start, end int64, data []byte, cb func(bool, error)) error {
	return errUnused
}
func (DB) Query(ctx context.Context, metric string, end int64, buf []byte, cb database.ResultCallback) error {
	return errUnused
}
func (DB) QueryLatest(ctx context.Context, metric string, buf []byte) (int64, int64, []byte, error) {
	return 0, 0, nil, errUnused
}
func (DB) Metrics(ctx context.Context, cb func(string) (bool, error)) error { return errUnused }
func (DB) Run(ctx context.Context) error                                    { <-ctx.Done(); return nil }
