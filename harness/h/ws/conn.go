package ws

import (
	"context"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"

	"github.com/gorilla/websocket"

	"verif/mws"
	"verif/sym"
)

// client is a web-socket client: of the model in the symbolic executor, and a
// real one otherwise.
type client struct {
	model  *mws.Client
	conn   *websocket.Conn
	server *httptest.Server
	status int

	mu       sync.Mutex
	got      [][]byte
	ended    bool
	returned bool
}

// dial starts to connect to the handler.
func dial(h http.Handler, path, query string) *client {
	c := &client{}
	if sym.Symbolic() {
		c.model = mws.NewClient()
		ctx, cancel := context.WithCancel(context.Background())
		r := (&http.Request{Method: "GET", URL: &url.URL{Path: path, RawQuery: query}, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Host: "h"}).WithContext(ctx)
		go func() {
			h.ServeHTTP(c.model, r)
			cancel() // net/http does, also for a hijacked connection
			c.mu.Lock()
			c.returned = true
			c.mu.Unlock()
		}()
		return c
	}
	c.server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		h.ServeHTTP(w, r)
		c.mu.Lock()
		c.returned = true
		c.mu.Unlock()
	}))
	u := "ws" + strings.TrimPrefix(c.server.URL, "http") + (&url.URL{Path: path, RawQuery: query}).String()
	conn, resp, err := websocket.DefaultDialer.Dial(u, nil)
	if resp != nil {
		c.status = resp.StatusCode
	}
	if err == nil {
		c.conn = conn
	}
	return c
}

// Status returns the HTTP status, 101 for an upgraded connection.
func (c *client) Status() int {
	if c.model != nil {
		return c.model.Status
	}
	return c.status
}

// read receives until the connection ends.
func (c *client) read() {
	for {
		var b []byte
		var err error
		if c.model != nil {
			b, err = c.model.Recv()
		} else {
			_, b, err = c.conn.ReadMessage()
		}
		c.mu.Lock()
		if err != nil {
			c.ended = true
			c.mu.Unlock()
			return
		}
		c.got = append(c.got, b)
		c.mu.Unlock()
	}
}

func (c *client) state() (got [][]byte, ended, returned bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([][]byte(nil), c.got...), c.ended, c.returned
}

func (c *client) leave() {
	if c.model != nil {
		c.model.Leave()
		return
	}
	c.conn.Close()
}
