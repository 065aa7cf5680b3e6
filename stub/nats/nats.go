// Package nats stands in for the NATS client and server: publishes are
// recorded, deliveries and faults are up to the harness.
package nats

import (
	"errors"
	"sync"
	"time"
)

var (
	ErrConnectionClosed     = errors.New("nats: connection closed")
	ErrBadSubscription      = errors.New("nats: invalid subscription")
	ErrBadSubject           = errors.New("nats: invalid subject")
	ErrInvalidConnection    = errors.New("nats: invalid connection")
	ErrInvalidArg           = errors.New("nats: invalid argument")
	ErrMaxPayload           = errors.New("nats: maximum payload exceeded")
	ErrNoServers            = errors.New("nats: no servers available for connection")
	ErrTimeout              = errors.New("nats: timeout")
	ErrInvalidMsg           = errors.New("nats: invalid message or message nil")
	ErrSlowConsumer         = errors.New("nats: slow consumer, messages dropped")
	ErrConnectionDraining   = errors.New("nats: connection draining")
	ErrReconnectBufExceeded = errors.New("nats: outbound buffer limit exceeded")
)

const DefaultURL = "nats://127.0.0.1:4222"

// maxPayload is the default of the server.
const maxPayload = 1024 * 1024

type MsgHandler func(msg *Msg)

type Msg struct {
	Subject string
	Reply   string
	Data    []byte
	Sub     *Subscription
}

type Options struct {
	Url            string
	Name           string
	MaxReconnect   int
	AllowReconnect bool
}

type Option func(*Options) error

func MaxReconnects(n int) Option         { return func(o *Options) error { o.MaxReconnect = n; return nil } }
func Name(s string) Option               { return func(o *Options) error { o.Name = s; return nil } }
func ReconnectWait(time.Duration) Option { return func(o *Options) error { return nil } }
func Timeout(time.Duration) Option       { return func(o *Options) error { return nil } }

// VerifMsg is a published message.
type VerifMsg struct {
	Conn    *Conn
	Subject string
	Data    []byte
	At      time.Time
	Err     error
}

// VerifEnv is the environment of all connections.
type VerifEnv struct {
	mu        sync.Mutex
	conns     []*Conn
	published []VerifMsg
	steps     int

	// Fail decides whether an operation fails; it is called with the name of
	// the operation and the number of the operation of any kind.
	Fail func(op string, n int, subject string) error

	// Route makes what is published reach the subscribers.
	Route bool

	// Pick decides which of n members of a queue group gets a message, the
	// first one if it is nil.
	Pick func(group string, n int) int
}

// Verif is the current environment.
var Verif = &VerifEnv{}

// VerifReset starts with a new environment.
func VerifReset() *VerifEnv {
	Verif = &VerifEnv{}
	return Verif
}

func (e *VerifEnv) fail(op, subject string) error {
	f := e.Fail
	if f == nil {
		return nil
	}
	e.mu.Lock()
	n := e.steps
	e.steps++
	e.mu.Unlock()
	return f(op, n, subject)
}

// Published returns what was published so far, failed attempts included.
func (e *VerifEnv) Published() []VerifMsg {
	e.mu.Lock()
	defer e.mu.Unlock()
	return append([]VerifMsg(nil), e.published...)
}

// On returns what was successfully published on a subject.
func (e *VerifEnv) On(subject string) []VerifMsg {
	e.mu.Lock()
	defer e.mu.Unlock()
	var out []VerifMsg
	for _, m := range e.published {
		if m.Subject == subject && m.Err == nil {
			out = append(out, m)
		}
	}
	return out
}

// Forget empties the record.
func (e *VerifEnv) Forget() {
	e.mu.Lock()
	e.published = nil
	e.mu.Unlock()
}

// Open counts the connections that are open.
func (e *VerifEnv) Open() int {
	e.mu.Lock()
	conns := append([]*Conn(nil), e.conns...)
	e.mu.Unlock()
	n := 0
	for _, c := range conns {
		if !c.IsClosed() {
			n++
		}
	}
	return n
}

// Outage makes the server unreachable for as long as it takes to try n times
// in vain to reconnect. Clients which do not try that often give up for good.
func (e *VerifEnv) Outage(n int) {
	for _, c := range e.Conns() {
		if !c.Opts.AllowReconnect || (c.Opts.MaxReconnect >= 0 && n >= c.Opts.MaxReconnect) {
			c.Close()
		}
	}
}

// Conns returns all connections ever made.
func (e *VerifEnv) Conns() []*Conn {
	e.mu.Lock()
	defer e.mu.Unlock()
	return append([]*Conn(nil), e.conns...)
}

// Subscriptions returns the live subscriptions in order.
func (e *VerifEnv) Subscriptions() []*Subscription {
	var out []*Subscription
	for _, c := range e.Conns() {
		c.mu.Lock()
		for _, s := range c.subs {
			if !s.closed {
				out = append(out, s)
			}
		}
		c.mu.Unlock()
	}
	return out
}

// Deliver hands a message to the subscribers of a subject, one per queue
// group. It returns the number of subscriptions it reached.
func (e *VerifEnv) Deliver(subject string, data []byte) int {
	n := 0
	subs := e.Subscriptions()
	done := map[string]bool{}
	for i, s := range subs {
		if s.Subject != subject || (s.Queue != "" && done[s.Queue]) {
			continue
		}
		if s.Queue != "" {
			done[s.Queue] = true
			if e.Pick != nil {
				members := []*Subscription{}
				for _, m := range subs[i:] {
					if m.Subject == subject && m.Queue == s.Queue {
						members = append(members, m)
					}
				}
				s = members[e.Pick(s.Queue, len(members))]
			}
		}
		s.deliver(&Msg{Subject: subject, Data: append([]byte(nil), data...), Sub: s})
		n++
	}
	return n
}

type Conn struct {
	Opts   Options
	env    *VerifEnv
	mu     sync.Mutex
	closed bool
	subs   []*Subscription
}

type Subscription struct {
	Subject string
	Queue   string

	conn     *Conn
	mu       sync.Mutex
	closed   bool
	done     chan struct{}
	queue    []*Msg
	wake     chan struct{}
	bytes    int
	maxMsgs  int
	maxBytes int
	dropped  int
	cb       MsgHandler
}

func Connect(url string, options ...Option) (*Conn, error) {
	nc := &Conn{env: Verif}
	nc.Opts.Url = url
	nc.Opts.AllowReconnect = true
	nc.Opts.MaxReconnect = 60
	for _, o := range options {
		if o != nil {
			if err := o(&nc.Opts); err != nil {
				return nil, err
			}
		}
	}
	if err := nc.env.fail("connect", ""); err != nil {
		return nil, err
	}
	nc.env.mu.Lock()
	nc.env.conns = append(nc.env.conns, nc)
	nc.env.mu.Unlock()
	return nc, nil
}

func (nc *Conn) Publish(subj string, data []byte) error {
	if nc == nil {
		return ErrInvalidConnection
	}
	if subj == "" {
		return ErrBadSubject
	}
	m := VerifMsg{Conn: nc, Subject: subj, Data: append([]byte(nil), data...), At: time.Now()}
	if nc.IsClosed() {
		m.Err = ErrConnectionClosed
	} else if len(data) > maxPayload {
		m.Err = ErrMaxPayload
	} else {
		m.Err = nc.env.fail("publish", subj)
	}
	nc.env.mu.Lock()
	nc.env.published = append(nc.env.published, m)
	nc.env.mu.Unlock()
	if m.Err == nil && nc.env.Route {
		nc.env.Deliver(subj, m.Data)
	}
	return m.Err
}

func (nc *Conn) Subscribe(subj string, cb MsgHandler) (*Subscription, error) {
	return nc.subscribe(subj, "", cb)
}

func (nc *Conn) QueueSubscribe(subj, queue string, cb MsgHandler) (*Subscription, error) {
	return nc.subscribe(subj, queue, cb)
}

func (nc *Conn) subscribe(subj, queue string, cb MsgHandler) (*Subscription, error) {
	if nc == nil {
		return nil, ErrInvalidConnection
	}
	if subj == "" {
		return nil, ErrBadSubject
	}
	if cb == nil {
		return nil, ErrBadSubscription
	}
	if nc.IsClosed() {
		return nil, ErrConnectionClosed
	}
	if err := nc.env.fail("subscribe", subj); err != nil {
		return nil, err
	}
	s := &Subscription{Subject: subj, Queue: queue, conn: nc, done: make(chan struct{}), wake: make(chan struct{}, 1),
		maxMsgs: 65536, maxBytes: 65536 * 1024, cb: cb}
	nc.mu.Lock()
	nc.subs = append(nc.subs, s)
	nc.mu.Unlock()
	go s.verifDeliverLoop()
	return s, nil
}

// holds says whether so much may wait for the subscriber.
func (s *Subscription) holds(msgs, bytes int) bool {
	return !((s.maxMsgs > 0 && msgs > s.maxMsgs) || (s.maxBytes > 0 && bytes > s.maxBytes))
}

// VerifHolds says whether so much may wait for the subscriber.
func (s *Subscription) VerifHolds(msgs, bytes int) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.holds(msgs, bytes)
}

func (s *Subscription) deliver(m *Msg) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed {
		return
	}
	if !s.holds(len(s.queue)+1, s.bytes+len(m.Data)) {
		s.dropped++
		return
	}
	s.queue = append(s.queue, m)
	s.bytes += len(m.Data)
	select {
	case s.wake <- struct{}{}:
	default:
	}
}

func (s *Subscription) verifDeliverLoop() {
	for {
		s.mu.Lock()
		var m *Msg
		if s.closed {
			s.mu.Unlock()
			return
		}
		if len(s.queue) > 0 {
			m = s.queue[0]
			s.queue = s.queue[1:]
			s.bytes -= len(m.Data)
		}
		s.mu.Unlock()
		if m != nil {
			s.cb(m)
			continue
		}
		select {
		case <-s.wake:
		case <-s.done:
			return
		}
	}
}

func (s *Subscription) close() {
	s.mu.Lock()
	if !s.closed {
		s.closed = true
		close(s.done)
	}
	s.mu.Unlock()
}

func (s *Subscription) isClosed() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.closed
}

func (s *Subscription) IsValid() bool { return s != nil && !s.isClosed() }

func (s *Subscription) Unsubscribe() error {
	if s == nil {
		return ErrBadSubscription
	}
	if s.conn.IsClosed() {
		return ErrConnectionClosed
	}
	if s.isClosed() {
		return ErrBadSubscription
	}
	s.close()
	return nil
}

func (s *Subscription) Drain() error { return s.Unsubscribe() }

func (s *Subscription) SetPendingLimits(msgLimit, bytesLimit int) error {
	if s == nil {
		return ErrBadSubscription
	}
	if err := s.conn.env.fail("limits", s.Subject); err != nil {
		return err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed {
		return ErrBadSubscription
	}
	if msgLimit == 0 || bytesLimit == 0 {
		return ErrInvalidArg
	}
	s.maxMsgs, s.maxBytes = msgLimit, bytesLimit
	return nil
}

func (s *Subscription) PendingLimits() (int, int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.maxMsgs, s.maxBytes, nil
}

func (s *Subscription) Dropped() (int, error) {
	if s == nil {
		return -1, ErrBadSubscription
	}
	if err := s.conn.env.fail("dropped", s.Subject); err != nil {
		return -1, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed {
		return -1, ErrBadSubscription
	}
	return s.dropped, nil
}

// VerifDrop makes the subscription report n more dropped messages.
func (s *Subscription) VerifDrop(n int) {
	s.mu.Lock()
	s.dropped += n
	s.mu.Unlock()
}

func (nc *Conn) Flush() error {
	if nc == nil {
		return ErrInvalidConnection
	}
	if nc.IsClosed() {
		return ErrConnectionClosed
	}
	return nc.env.fail("flush", "")
}

func (nc *Conn) FlushTimeout(time.Duration) error { return nc.Flush() }

func (nc *Conn) LastError() error { return nil }

func (nc *Conn) Close() {
	if nc == nil {
		return
	}
	nc.mu.Lock()
	nc.closed = true
	subs := append([]*Subscription(nil), nc.subs...)
	nc.mu.Unlock()
	for _, s := range subs {
		s.close()
	}
}

func (nc *Conn) Drain() error {
	nc.Close()
	return nil
}

func (nc *Conn) IsClosed() bool {
	nc.mu.Lock()
	defer nc.mu.Unlock()
	return nc.closed
}

func (nc *Conn) IsConnected() bool { return !nc.IsClosed() }

// PublishMsg publishes m.
func (nc *Conn) PublishMsg(m *Msg) error {
	if m == nil {
		return ErrInvalidMsg
	}
	return nc.Publish(m.Subject, m.Data)
}

// PublishRequest publishes without waiting for a reply.
func (nc *Conn) PublishRequest(subj, reply string, data []byte) error { return nc.Publish(subj, data) }

func (nc *Conn) chanHandler(ch chan *Msg) (MsgHandler, **Subscription) {
	var s *Subscription
	return func(m *Msg) {
		select {
		case ch <- m:
		default:
			if s != nil {
				s.VerifDrop(1)
			}
		}
	}, &s
}

// ChanSubscribe delivers to a channel, what does not fit is dropped.
func (nc *Conn) ChanSubscribe(subj string, ch chan *Msg) (*Subscription, error) {
	return nc.ChanQueueSubscribe(subj, "", ch)
}

// ChanQueueSubscribe delivers to a channel, what does not fit is dropped.
func (nc *Conn) ChanQueueSubscribe(subj, group string, ch chan *Msg) (*Subscription, error) {
	cb, p := nc.chanHandler(ch)
	s, err := nc.subscribe(subj, group, cb)
	*p = s
	return s, err
}

// ConnectedUrl is the server's address.
func (nc *Conn) ConnectedUrl() string { return nc.Opts.Url }

type (
	ConnHandler    func(*Conn)
	ConnErrHandler func(*Conn, error)
	ErrHandler     func(*Conn, *Subscription, error)
)

func ignored(*Options) error { return nil }

func NoReconnect() Option {
	return func(o *Options) error { o.AllowReconnect = false; return nil }
}
func DontRandomize() Option                       { return ignored }
func NoEcho() Option                              { return ignored }
func ReconnectJitter(_, _ time.Duration) Option   { return ignored }
func PingInterval(time.Duration) Option           { return ignored }
func MaxPingsOutstanding(int) Option              { return ignored }
func ReconnectBufSize(int) Option                 { return ignored }
func FlusherTimeout(time.Duration) Option         { return ignored }
func DrainTimeout(time.Duration) Option           { return ignored }
func DisconnectErrHandler(ConnErrHandler) Option  { return ignored }
func DisconnectHandler(ConnHandler) Option        { return ignored }
func ReconnectHandler(ConnHandler) Option         { return ignored }
func ClosedHandler(ConnHandler) Option            { return ignored }
func DiscoveredServersHandler(ConnHandler) Option { return ignored }
func ErrorHandler(ErrHandler) Option              { return ignored }
func UserInfo(_, _ string) Option                 { return ignored }
func Token(string) Option                         { return ignored }
func SyncQueueLen(int) Option                     { return ignored }
func UseOldRequestStyle() Option                  { return ignored }
func NoCallbacksAfterClientClose() Option         { return ignored }
