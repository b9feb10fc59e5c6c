package api

import (
	"context"
	"encoding/base64"
	"net/http"
	"net/url"

	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/internal/zzmodel"
	zz "github.com/vivint/rothko/internal/zzverif"
)

// zzResp records a response.
type zzResp struct {
	header http.Header
	sent   http.Header // when the code was written
	code   int
	body   []byte
}

func zzNewResp() *zzResp { return &zzResp{header: http.Header{}} }

func (r *zzResp) Header() http.Header { return r.header }

func (r *zzResp) WriteHeader(code int) {
	if r.code == 0 {
		r.code = code
		r.sent = r.header.Clone()
	}
}

func (r *zzResp) Write(p []byte) (int, error) {
	if r.code == 0 {
		r.WriteHeader(200)
	}
	r.body = append(r.body, p...)
	return len(p), nil
}

// zzRec is a stored record.
type zzRec struct {
	start, end int64
	data       []byte
}

// zzData is a database that records how it is used.
type zzData struct {
	recs    []zzRec
	names   []string
	queued  int
	queried []string
	listed  int
}

func (d *zzData) Queue(ctx context.Context, metric string, start, end int64,
	data []byte, cb func(bool, error)) error {
	d.queued++
	return nil
}

func (d *zzData) Query(ctx context.Context, metric string, end int64,
	buf []byte, cb database.ResultCallback) error {
	d.queried = append(d.queried, metric)
	for _, r := range d.recs {
		if r.end >= end {
			continue
		}
		ok, err := cb(ctx, r.start, r.end, append([]byte(nil), r.data...))
		if err != nil || !ok {
			return err
		}
	}
	return nil
}

func (d *zzData) QueryLatest(ctx context.Context, metric string, buf []byte) (
	start, end int64, data []byte, err error) {
	d.queried = append(d.queried, metric)
	return 0, 0, nil, nil
}

func (d *zzData) Metrics(ctx context.Context,
	cb func(name string) (bool, error)) error {
	d.listed++
	for _, n := range d.names {
		ok, err := cb(n)
		if err != nil || !ok {
			return err
		}
	}
	return nil
}

func (d *zzData) Run(ctx context.Context) error { return nil }

// zzStatic is a handler for files.
type zzStatic struct{ served int }

func (s *zzStatic) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	s.served++
	w.WriteHeader(200)
}

// zzRequest is a request. The form is given in pairs.
func zzRequest(method, path string, form ...string) *http.Request {
	req := &http.Request{
		Method: method,
		URL:    &url.URL{Path: path},
		Header: http.Header{},
		Form:   url.Values{},
	}
	for i := 0; i+1 < len(form); i += 2 {
		req.Form[form[i]] = []string{form[i+1]}
	}
	return req
}

// zzAuth adds a basic authorization.
func zzAuth(req *http.Request, cred string) {
	if zz.Engine() {
		if zzmodel.Decoded == nil {
			zzmodel.Decoded = map[string]string{}
		}
		token := "token" + string(rune('0'+len(zzmodel.Decoded)))
		zzmodel.Decoded[token] = cred
		req.Header["Authorization"] = []string{"Basic " + token}
		return
	}
	req.Header["Authorization"] = []string{
		"Basic " + base64.StdEncoding.EncodeToString([]byte(cred)),
	}
}
