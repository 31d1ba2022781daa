// Package fakeapi has an in-memory database and helpers to ask the API.
package fakeapi

import (
	"context"
	"errors"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"

	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/database/files/zzverif/fakedb"
)

// Rec is a stored record.
type Rec struct {
	Start, End int64
	Data       []byte
}

// DB is a database over records in memory, by metric.
type DB struct {
	fakedb.DB
	M     map[string][]Rec // by decreasing end
	Calls int
	Fail  error // of Metrics
	// reading any metric fails after FailAt-1 records, if positive
	FailAt int
}

// ErrRead is how reading fails.
var ErrRead = errors.New("reading failed")

// ErrUnknown is the error for a metric that is not there.
var ErrUnknown = errors.New("no such metric stored here")

// Query implements database.DB. The data handed out is destroyed afterwards.
func (d *DB) Query(ctx context.Context, metric string, end int64, buf []byte, cb database.ResultCallback) error {
	d.Calls++
	recs, ok := d.M[metric]
	if !ok {
		return ErrUnknown
	}
	for i, r := range recs {
		if d.FailAt > 0 && i >= d.FailAt-1 {
			return ErrRead
		}
		if r.End >= end {
			continue
		}
		buf = append(buf[:0], r.Data...)
		more, err := cb(ctx, r.Start, r.End, buf)
		for i := range buf {
			buf[i] = 0xff
		}
		if err != nil || !more {
			return err
		}
	}
	if d.FailAt > 0 {
		return ErrRead
	}
	return nil
}

// QueryLatest implements database.DB.
func (d *DB) QueryLatest(ctx context.Context, metric string, buf []byte) (int64, int64, []byte, error) {
	d.Calls++
	recs := d.M[metric]
	if len(recs) == 0 {
		return 0, 0, nil, ErrUnknown
	}
	return recs[0].Start, recs[0].End, append(buf[:0], recs[0].Data...), nil
}

// Names lists the metrics in order.
func (d *DB) Names() (out []string) {
	for n := range d.M {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// Metrics implements database.DB.
func (d *DB) Metrics(ctx context.Context, cb func(string) (bool, error)) error {
	d.Calls++
	for _, n := range d.Names() {
		if ok, err := cb(n); err != nil || !ok {
			return err
		}
	}
	return d.Fail
}

// Req is a request.
type Req struct {
	Method string
	URI    string
	Header [][2]string
}

// Ask has the handler answer the request.
func Ask(h http.Handler, r Req) *httptest.ResponseRecorder {
	// as net/http's server parses it: a # is part of the query
	u, err := url.ParseRequestURI(r.URI)
	if err != nil {
		return nil
	}
	req, err := http.NewRequest(r.Method, "http://rothko.test/", nil)
	if err != nil {
		return nil
	}
	req.URL = u
	req.RequestURI = r.URI
	req.RemoteAddr = "192.0.2.1:1234"
	for _, kv := range r.Header {
		req.Header.Add(kv[0], kv[1])
	}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, req)
	return w
}
