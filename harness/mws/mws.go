// Package mws is a model of web-socket connections: the symbolic executor
// puts these functions in the place of the methods of *websocket.Upgrader and
// *websocket.Conn on the server's side.
package mws

import (
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"sync"
	"time"

	"github.com/gorilla/websocket"
)

// Window is the number of messages that a connection buffers.
var Window = 64

// Client is the other end of a connection, and an http.ResponseWriter until
// the connection is upgraded.
type Client struct {
	Status   int
	header   http.Header
	Upgraded bool
	out      chan []byte   // frames to the client
	in       chan []byte   // frames from the client
	gone     chan struct{} // closed when the client has gone
	closed   chan struct{} // closed when the server has closed the connection
	once     sync.Once
	onceGone sync.Once
	writing  int
	reading  int
}

// NewClient makes a client that has not connected yet.
func NewClient() *Client {
	return &Client{header: http.Header{}, out: make(chan []byte, Window), in: make(chan []byte, 4), gone: make(chan struct{}), closed: make(chan struct{})}
}

// Header implements http.ResponseWriter.
func (c *Client) Header() http.Header { return c.header }

// WriteHeader implements http.ResponseWriter.
func (c *Client) WriteHeader(status int) {
	if c.Status == 0 {
		c.Status = status
	}
}

// Write implements http.ResponseWriter.
func (c *Client) Write(b []byte) (int, error) {
	c.WriteHeader(200)
	return len(b), nil
}

// Send sends a frame to the server.
func (c *Client) Send(b []byte) { c.in <- b }

// Leave ends the connection on the client's side.
func (c *Client) Leave() { c.onceGone.Do(func() { close(c.gone) }) }

// Recv waits for the next frame; an error means that the connection ended.
func (c *Client) Recv() ([]byte, error) {
	select {
	case b := <-c.out:
		return b, nil
	default:
	}
	select {
	case b := <-c.out:
		return b, nil
	case <-c.gone:
		return nil, io.EOF
	case <-c.closed:
		select {
		case b := <-c.out:
			return b, nil
		default:
		}
		return nil, io.EOF
	}
}

var mu sync.Mutex
var conns = map[*websocket.Conn]*Client{}

func of(c *websocket.Conn) *Client {
	mu.Lock()
	defer mu.Unlock()
	return conns[c]
}

// Upgrade models (*websocket.Upgrader).Upgrade.
func Upgrade(u *websocket.Upgrader, w http.ResponseWriter, r *http.Request, h http.Header) (*websocket.Conn, error) {
	c, ok := w.(*Client)
	if !ok || c.Status != 0 {
		w.WriteHeader(http.StatusBadRequest)
		return nil, errors.New("websocket: the client is not using the websocket protocol")
	}
	c.WriteHeader(http.StatusSwitchingProtocols)
	c.Upgraded = true
	conn := &websocket.Conn{}
	mu.Lock()
	conns[conn] = c
	mu.Unlock()
	return conn, nil
}

var errClosed = errors.New("use of closed network connection")

// WriteMessage models (*websocket.Conn).WriteMessage: it is not for
// concurrent use.
func WriteMessage(conn *websocket.Conn, typ int, data []byte) error {
	c := of(conn)
	c.writing++
	if c.writing != 1 {
		panic("concurrent write to websocket connection")
	}
	defer func() { c.writing-- }()
	select {
	case <-c.closed:
		return errClosed
	case <-c.gone:
		return errors.New("broken pipe")
	default:
	}
	if typ != websocket.TextMessage && typ != websocket.BinaryMessage {
		return nil
	}
	select {
	case c.out <- append([]byte(nil), data...):
		return nil
	case <-c.closed:
		return errClosed
	case <-c.gone:
		return errors.New("broken pipe")
	}
}

// WriteJSON models (*websocket.Conn).WriteJSON.
func WriteJSON(conn *websocket.Conn, v interface{}) error {
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	return WriteMessage(conn, websocket.TextMessage, b)
}

// WriteControl models (*websocket.Conn).WriteControl.
func WriteControl(conn *websocket.Conn, typ int, data []byte, deadline time.Time) error {
	select {
	case <-of(conn).closed:
		return errClosed
	default:
	}
	return nil
}

// ReadMessage models (*websocket.Conn).ReadMessage.
func ReadMessage(conn *websocket.Conn) (int, []byte, error) {
	c := of(conn)
	c.reading++
	if c.reading != 1 {
		panic("concurrent read from websocket connection")
	}
	defer func() { c.reading-- }()
	select {
	case b := <-c.in:
		return websocket.TextMessage, b, nil
	case <-c.closed:
		return -1, nil, errClosed
	case <-c.gone:
		return -1, nil, io.ErrUnexpectedEOF
	}
}

type reader struct{ b []byte }

func (r *reader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

// NextReader models (*websocket.Conn).NextReader.
func NextReader(conn *websocket.Conn) (int, io.Reader, error) {
	t, b, err := ReadMessage(conn)
	if err != nil {
		return t, nil, err
	}
	return t, &reader{b}, nil
}

// Close models (*websocket.Conn).Close.
func Close(conn *websocket.Conn) error {
	c := of(conn)
	err := errClosed
	c.once.Do(func() {
		close(c.closed)
		err = nil
	})
	return err
}

// SetDeadline models the methods that set deadlines.
func SetDeadline(conn *websocket.Conn, t time.Time) error { return nil }

// SetReadLimit models (*websocket.Conn).SetReadLimit.
func SetReadLimit(conn *websocket.Conn, n int64) {}

// SetPongHandler models (*websocket.Conn).SetPongHandler.
func SetPongHandler(conn *websocket.Conn, h func(string) error) {}
