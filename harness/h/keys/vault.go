package keys

import (
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"strings"
	"sync"
)

// vault is a model of a Vault server with the KV engine, version 2, at
// "secret".
type vault struct {
	mu      sync.Mutex
	secrets map[string]*secret
	open    int                 // responses that are not closed
	fault   func(op string) int // 0 none, 1 no connection, 2 the response is lost, 3 the server refuses
}

type secret struct{ versions []version }

type version struct {
	data               string // JSON
	deleted, destroyed bool
}

func newVault() *vault { return &vault{secrets: map[string]*secret{}} }

func (v *vault) values() []string {
	v.mu.Lock()
	defer v.mu.Unlock()
	var r []string
	for _, s := range v.secrets {
		for _, x := range s.versions {
			m := map[string]string{}
			if x.data != "" {
				if err := json.Unmarshal([]byte(x.data), &m); err != nil {
					r = append(r, x.data)
				}
			}
			for _, k := range m {
				r = append(r, k)
			}
		}
	}
	return r
}

var errNetwork = errors.New("network failure")

type responseBody struct {
	io.Reader
	v      *vault
	closed bool
}

// Close implements io.Closer.
func (b *responseBody) Close() error {
	b.v.mu.Lock()
	defer b.v.mu.Unlock()
	if !b.closed {
		b.closed = true
		b.v.open--
	}
	return nil
}

func (v *vault) response(req *http.Request, code int, body string) *http.Response {
	v.mu.Lock()
	defer v.mu.Unlock()
	v.open++
	return &http.Response{StatusCode: code, Status: http.StatusText(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/json"}},
		Body: &responseBody{Reader: strings.NewReader(body), v: v}, ContentLength: int64(len(body)), Request: req}
}

// RoundTrip implements http.RoundTripper.
func (v *vault) RoundTrip(req *http.Request) (*http.Response, error) {
	var body []byte
	if req.Body != nil {
		var err error
		if body, err = io.ReadAll(req.Body); err != nil {
			return nil, err
		}
		req.Body.Close()
	}
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	kind := 0
	if v.fault != nil {
		kind = v.fault(req.Method)
	}
	switch kind {
	case 1:
		return nil, errNetwork
	case 3:
		return v.response(req, 503, `{"errors":["Vault is sealed"]}`), nil
	}
	code, text := v.serve(req, body)
	if kind == 2 {
		return nil, errNetwork
	}
	return v.response(req, code, text), nil
}

func (v *vault) serve(req *http.Request, body []byte) (int, string) {
	v.mu.Lock()
	defer v.mu.Unlock()
	if req.URL.Host != "vault:8200" || req.Header.Get("X-Vault-Token") != "token" {
		return 403, `{"errors":["permission denied"]}`
	}
	path := strings.TrimPrefix(req.URL.Path, "/v1/secret/")
	i := strings.Index(path, "/")
	if path == req.URL.Path || i < 0 || i == len(path)-1 {
		return 404, `{"errors":["no handler for route"]}`
	}
	op, name := path[:i], path[i+1:]
	s := v.secrets[name]
	write := req.Method == "POST" || req.Method == "PUT"
	switch {
	case op == "data" && req.Method == "GET":
		if s == nil {
			return 404, `{"errors":[]}`
		}
		n := len(s.versions)
		x := s.versions[n-1]
		meta := metadata{CreatedTime: "2021-01-01T00:00:00Z", Destroyed: x.destroyed, Version: n}
		if x.deleted {
			meta.DeletionTime = "2021-01-02T00:00:00Z"
		}
		code, data := 200, x.data
		if x.deleted || x.destroyed {
			code, data = 404, "null"
		}
		m, err := json.Marshal(meta)
		if err != nil {
			panic(err)
		}
		return code, `{"request_id":"r","lease_id":"","renewable":false,"lease_duration":0,"data":{"data":` + data + `,"metadata":` + string(m) + `},"wrap_info":null,"warnings":null,"auth":null}`
	case op == "data" && write:
		var in struct {
			Data    json.RawMessage `json:"data"`
			Options struct {
				CAS *int `json:"cas"`
			} `json:"options"`
		}
		if err := json.Unmarshal(body, &in); err != nil {
			return 400, `{"errors":["error parsing JSON"]}`
		}
		if len(in.Data) == 0 {
			return 400, `{"errors":["no data provided"]}`
		}
		n := 0
		if s != nil {
			n = len(s.versions)
		}
		if in.Options.CAS != nil && *in.Options.CAS != n {
			return 400, `{"errors":["check-and-set parameter did not match the current version"]}`
		}
		if s == nil {
			s = &secret{}
			v.secrets[name] = s
		}
		s.versions = append(s.versions, version{data: string(in.Data)})
		return 200, `{"data":{"created_time":"2021-01-01T00:00:00Z","deletion_time":"","destroyed":false,"version":1}}`
	case op == "data" && req.Method == "DELETE":
		if s != nil {
			s.versions[len(s.versions)-1].deleted = true
		}
		return 204, ""
	case (op == "destroy" || op == "delete") && write:
		var in struct {
			Versions []int `json:"versions"`
		}
		if err := json.Unmarshal(body, &in); err != nil || len(in.Versions) == 0 {
			return 400, `{"errors":["no version number provided"]}`
		}
		for _, n := range in.Versions {
			if s != nil && n >= 1 && n <= len(s.versions) {
				x := &s.versions[n-1]
				if op == "delete" {
					x.deleted = true
				} else {
					x.destroyed, x.data = true, ""
				}
			}
		}
		return 204, ""
	case op == "metadata" && req.Method == "DELETE":
		delete(v.secrets, name)
		return 204, ""
	}
	return 405, `{"errors":["unsupported operation"]}`
}

type metadata struct {
	CreatedTime  string `json:"created_time"`
	DeletionTime string `json:"deletion_time"`
	Destroyed    bool   `json:"destroyed"`
	Version      int    `json:"version"`
}
