// Package venv is the environment of the components: sockets and HTTP.
package venv

import (
	"errors"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/nats-io/nats.go"
)

// Env is one environment.
type Env struct {
	NATS *nats.VerifEnv
	UDP  *UDP

	mu        sync.Mutex
	listeners []*Listener
	replies   int

	// FailListen decides whether listening on a TCP address fails.
	FailListen func(addr string) error
	// FailUDP decides whether opening the UDP socket fails.
	FailUDP func() error
	// Answer answers requests made by the component.
	Answer func(r *http.Request, body []byte) (status int, reply string, err error)
	// Location is where the answers redirect to.
	Location string
}

// New installs a fresh environment.
func New() *Env {
	e := &Env{NATS: nats.VerifReset(), UDP: &UDP{wake: make(chan struct{}, 1), done: make(chan struct{})}}
	net.VerifConn = e.UDP
	net.VerifListenUDP = func(network string, laddr *net.UDPAddr) error {
		if e.FailUDP != nil {
			if err := e.FailUDP(); err != nil {
				return err
			}
		}
		e.UDP.mu.Lock()
		defer e.UDP.mu.Unlock()
		e.UDP.opened = true
		e.UDP.Port = laddr.Port
		return nil
	}
	net.VerifListen = e.listen
	http.VerifServe = func(s *http.Server, l net.Listener) {
		v := l.(*Listener)
		e.mu.Lock()
		v.server = s
		e.mu.Unlock()
	}
	http.VerifRoundTrip = e.roundTrip
	return e
}

var errInUse = errors.New("address already in use")

func (e *Env) listen(network, addr string) (net.Listener, error) {
	if e.FailListen != nil {
		if err := e.FailListen(addr); err != nil {
			return nil, err
		}
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, l := range e.listeners {
		if l.addr == addr && !l.isClosed() {
			return nil, errInUse
		}
	}
	l := &Listener{addr: addr, done: make(chan struct{})}
	e.listeners = append(e.listeners, l)
	return l, nil
}

// OpenListeners counts the open TCP listeners.
func (e *Env) OpenListeners() int {
	e.mu.Lock()
	defer e.mu.Unlock()
	n := 0
	for _, l := range e.listeners {
		if !l.isClosed() {
			n++
		}
	}
	return n
}

// Server returns the server which serves on an address.
func (e *Env) Server(addr string) *http.Server {
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, l := range e.listeners {
		if l.addr == addr && l.server != nil && !l.isClosed() {
			return l.server
		}
	}
	return nil
}

// Listener is a TCP listener without connections.
type Listener struct {
	addr   string
	server *http.Server
	mu     sync.Mutex
	closed bool
	done   chan struct{}
}

func (l *Listener) isClosed() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.closed
}

// Accept waits for the listener to be closed.
func (l *Listener) Accept() (net.Conn, error) {
	<-l.done
	return nil, net.ErrClosed
}

// Close closes the listener.
func (l *Listener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	close(l.done)
	return nil
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// Addr is the address.
func (l *Listener) Addr() net.Addr { return addr(l.addr) }

// Reply records an HTTP answer.
type Reply struct {
	Status int
	Body   []byte
	header http.Header
}

// Header implements http.ResponseWriter.
func (r *Reply) Header() http.Header {
	if r.header == nil {
		r.header = http.Header{}
	}
	return r.header
}

// WriteHeader implements http.ResponseWriter.
func (r *Reply) WriteHeader(s int) {
	if r.Status == 0 {
		r.Status = s
	}
}

// Write implements http.ResponseWriter.
func (r *Reply) Write(b []byte) (int, error) {
	if r.Status == 0 {
		r.Status = 200
	}
	r.Body = append(r.Body, b...)
	return len(b), nil
}

// Body is a request body which comes in pieces and may fail.
type Body struct {
	Pieces [][]byte
	Err    error // instead of io.EOF
	Early  bool  // the error comes together with the last piece
	Wait   func()
}

// Read implements io.Reader.
func (b *Body) Read(p []byte) (int, error) {
	if b.Wait != nil {
		b.Wait()
	}
	err := b.Err
	if err == nil {
		err = io.EOF
	}
	if len(b.Pieces) == 0 {
		return 0, err
	}
	n := copy(p, b.Pieces[0])
	if n < len(b.Pieces[0]) {
		b.Pieces[0] = b.Pieces[0][n:]
		return n, nil
	}
	b.Pieces = b.Pieces[1:]
	if len(b.Pieces) == 0 && b.Early {
		return n, err
	}
	return n, nil
}

// Close implements io.Closer.
func (b *Body) Close() error { return nil }

// Request sends a request to the component's own server; nil means that
// nothing serves the address.
func (e *Env) Request(addr, method, url string, body io.ReadCloser) *Reply {
	s := e.Server(addr)
	if s == nil {
		return nil
	}
	return request(s.Handler, method, url, body)
}

// Post sends a request to a handler.
func Post(s *http.Server, url string, body io.ReadCloser) *Reply {
	return request(s.Handler, "POST", url, body)
}

func request(h http.Handler, method, url string, body io.ReadCloser) *Reply {
	req, err := http.NewRequest(method, url, nil)
	if err != nil {
		panic(err)
	}
	req.Body = http.NoBody
	if body != nil {
		req.Body = body
	}
	r := &Reply{}
	h.ServeHTTP(r, req)
	if r.Status == 0 {
		r.Status = 200
	}
	return r
}

// reply is the body of an answer.
type reply struct {
	io.Reader
	env    *Env
	closed bool
}

func (r *reply) Close() error {
	r.env.mu.Lock()
	defer r.env.mu.Unlock()
	if !r.closed {
		r.closed = true
		r.env.replies--
	}
	return nil
}

// OpenReplies counts the answers whose body has not been closed, which keep
// their connection busy.
func (e *Env) OpenReplies() int {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.replies
}

func (e *Env) roundTrip(req *http.Request) (*http.Response, error) {
	var body []byte
	if req.Body != nil {
		b := make([]byte, req.ContentLength+16)
		for {
			n, err := req.Body.Read(b)
			body = append(body, b[:n]...)
			if err != nil {
				break
			}
		}
		req.Body.Close()
	}
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	status, text, err := e.Answer(req, body)
	if err != nil {
		return nil, err
	}
	e.mu.Lock()
	e.replies++
	e.mu.Unlock()
	h := http.Header{}
	if e.Location != "" {
		h["Location"] = []string{e.Location}
	}
	return &http.Response{Status: "answered", StatusCode: status, Header: h, Request: req,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, ContentLength: -1,
		Body: &reply{Reader: strings.NewReader(text), env: e}}, nil
}

// UDP is the listener's socket.
type UDP struct {
	mu       sync.Mutex
	queue    []datagram
	wake     chan struct{}
	done     chan struct{}
	deadline time.Time
	opened   bool
	closed   bool
	Port     int
	Buffer   int

	// FailBuffer decides whether setting the buffer size fails.
	FailBuffer func() error
}

type datagram struct {
	data []byte
	err  error
}

// Send makes a datagram or a read error arrive.
func (u *UDP) Send(data []byte, err error) {
	u.mu.Lock()
	u.queue = append(u.queue, datagram{append([]byte(nil), data...), err})
	u.mu.Unlock()
	select {
	case u.wake <- struct{}{}:
	default:
	}
}

// Open reports whether the socket is open.
func (u *UDP) Open() bool {
	u.mu.Lock()
	defer u.mu.Unlock()
	return u.opened && !u.closed
}

// Waiting counts the datagrams not read yet.
func (u *UDP) Waiting() int {
	u.mu.Lock()
	defer u.mu.Unlock()
	return len(u.queue)
}

type timeout struct{}

func (timeout) Error() string   { return "i/o timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

func (u *UDP) Read(b []byte) (int, error) {
	for {
		u.mu.Lock()
		d := u.deadline
		now := time.Now()
		if u.closed {
			u.mu.Unlock()
			return 0, net.ErrClosed
		}
		if !d.IsZero() && !now.Before(d) {
			u.mu.Unlock()
			return 0, timeout{}
		}
		if len(u.queue) > 0 {
			g := u.queue[0]
			u.queue = u.queue[1:]
			u.mu.Unlock()
			return copy(b, g.data), g.err
		}
		u.mu.Unlock()
		if d.IsZero() {
			select {
			case <-u.wake:
			case <-u.done:
			}
			continue
		}
		select {
		case <-u.wake:
		case <-u.done:
		case <-time.After(d.Sub(now)):
		}
	}
}

// Close closes the socket.
func (u *UDP) Close() error {
	u.mu.Lock()
	defer u.mu.Unlock()
	if u.closed {
		return net.ErrClosed
	}
	u.closed = true
	close(u.done)
	return nil
}

// LocalAddr is the address of the socket.
func (u *UDP) LocalAddr() net.Addr { return addr("udp") }

// SetReadDeadline sets the deadline of reads.
func (u *UDP) SetReadDeadline(t time.Time) error {
	u.mu.Lock()
	u.deadline = t
	u.mu.Unlock()
	return nil
}

// SetReadBuffer records the buffer size.
func (u *UDP) SetReadBuffer(n int) error {
	if u.FailBuffer != nil {
		if err := u.FailBuffer(); err != nil {
			return err
		}
	}
	u.mu.Lock()
	u.Buffer = n
	u.mu.Unlock()
	return nil
}
