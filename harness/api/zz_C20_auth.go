package api

import (
	"bytes"
	"net/http"

	zz "github.com/vivint/rothko/internal/zzverif"
)

// zzGate sends one request to a server and checks whether it is let through,
// which it is unless a status is wanted.
func zzGate(user, pass string, req *http.Request, want int) {
	path := []string{"/api/render", "/api/query", "/api/nonce", "/", "/index.html", "/api"}[zz.Choose("path", 6)]
	req.URL.Path = path
	db := &zzData{names: []string{"metric.name"}}
	static := &zzStatic{}
	opts := Options{Username: user, Password: pass}
	var handler http.Handler
	if zz.Bool("static") {
		handler = static
	}
	s := New(db, handler, opts)

	// the nonce is known from a request that is allowed
	first := zzNewResp()
	ok := zzRequest("GET", "/api/nonce")
	if user != "" {
		zzAuth(ok, user+":"+pass)
	}
	s.ServeHTTP(first, ok)
	nonce := first.body
	zz.Assert(first.code == 200 && len(nonce) > 0, "the right credentials are let in")

	resp := zzNewResp()
	s.ServeHTTP(resp, req)

	reached := len(db.queried)+db.listed+static.served > 0
	zz.Assert(db.queued == 0, "a request writes nothing")
	if want != 0 {
		zz.Assert(resp.code == want, "a refused request gets the right status")
		zz.Assert(want != 401 || resp.sent.Get("WWW-Authenticate") != "", "an unauthorized request gets a challenge")
		zz.Assert(!reached, "a refused request reaches no handler")
		zz.Assert(len(nonce) == 0 || !bytes.Contains(resp.body, nonce), "a refused request does not get the nonce")
		zz.Assert(resp.header.Get("Content-Type") != "application/json" &&
			resp.header.Get("Content-Type") != "image/png", "a refused request gets no data")
		return
	}
	zz.Assert(resp.code != 401 && resp.code != 405, "a request that is allowed is not refused")
	switch path {
	case "/api/render":
		zz.Assert(len(db.queried) == 1 && db.queried[0] == "some.metric", "rendering queries the metric")
		zz.Reach("render")
	case "/api/query":
		zz.Assert(db.listed == 1 && resp.code == 200, "searching lists the metrics")
		zz.Reach("query")
	case "/api/nonce":
		zz.Assert(resp.code == 200 && bytes.Equal(resp.body, nonce), "the nonce stays the same")
		zz.Reach("nonce")
	default:
		if handler != nil {
			zz.Assert(static.served == 1, "other paths are files")
			zz.Reach("files")
		} else {
			zz.Assert(resp.code == 404 && !reached, "without files other paths do not exist")
			zz.Reach("none")
		}
	}
}

func zzText(name string, max int) string {
	return zz.String(name, zz.Choose(name+" length", max+1))
}

// ZZ_C20_auth sends GET requests with any credentials to a server with any
// credentials.
//
//zz:cfg native=1 reach=render,query,nonce,files,none,refused,open
//zz:bounds configured user name and password of 0..3 (thorough 6) arbitrary bytes, sent: nothing, another scheme, a scheme without credentials or arbitrary decoded credentials of 0..8 (thorough 14) bytes, 6 paths, with and without static files; the hash is idealised
func ZZ_C20_auth() {
	un, pn, cn := 3, 3, 8
	if zz.Thorough() {
		un, pn, cn = 6, 6, 14
	}
	user, pass := zzText("user", un), zzText("pass", pn)
	for i := 0; i < len(user); i++ {
		zz.Assume(user[i] != ':')
	}
	req := zzRequest("GET", "", "metric", "some.metric", "query", "metric", "width", "10", "height", "10")

	want := http.StatusUnauthorized
	switch zz.Choose("header", 4) {
	case 0:
	case 1:
		req.Header["Authorization"] = []string{"Bearer token"}
	case 2:
		req.Header["Authorization"] = []string{"Basic"}
	default:
		cred := zzText("cred", cn)
		zzAuth(req, cred)
		if cred == user+":"+pass {
			want = 0
		}
	}
	if user == "" {
		want = 0
		zz.Reach("open")
	}
	if want != 0 {
		zz.Reach("refused")
	}
	zzGate(user, pass, req, want)
}

// ZZ_C20_method sends requests of any method.
//
//zz:cfg native=1 reach=render,query,nonce,files,none,other
//zz:bounds methods of 0..5 (thorough 8) arbitrary bytes and 8 common ones, with the right, the wrong or no credentials needed, 6 paths
func ZZ_C20_method() {
	max := 5
	if zz.Thorough() {
		max = 8
	}
	var method string
	common := []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "CONNECT", "TRACE"}
	if i := zz.Choose("common", len(common)+1); i < len(common) {
		method = common[i]
	} else {
		method = zzText("method", max)
	}
	req := zzRequest(method, "", "metric", "some.metric", "query", "metric", "width", "10", "height", "10")
	want := http.StatusMethodNotAllowed
	if method == "GET" {
		want = 0
	} else {
		zz.Reach("other")
	}
	user := ""
	switch zz.Choose("auth", 3) {
	case 1:
		user = "u"
		zzAuth(req, "u:p")
	case 2:
		user = "u"
		zzAuth(req, "u:q")
		want = http.StatusUnauthorized
	}
	zzGate(user, "p", req, want)
}
