// Package simnats wraps the real NATS client: connections go through the
// simulated network, and the simulator schedules everything that user code can
// observe (requests, responses, message handlers).
package simnats

import (
	"context"
	"errors"
	"fmt"
	"net"
	"net/url"
	"time"

	"github.com/nats-io/nats.go"

	"github.com/DataDog/orchestrion/internal/verifsim/sim"
	"github.com/DataDog/orchestrion/internal/verifsim/simnatssrv"
)

type MsgHandler func(*Msg)

// Msg replaces nats.Msg.
type Msg struct {
	Subject string
	Reply   string
	Header  nats.Header
	Data    []byte
	Sub     *nats.Subscription

	raw  *nats.Msg
	conn *Conn
}

func wrap(c *Conn, m *nats.Msg) *Msg {
	return &Msg{Subject: m.Subject, Reply: m.Reply, Header: m.Header, Data: m.Data, Sub: m.Sub, raw: m, conn: c}
}

func (m *Msg) toReal() *nats.Msg {
	return &nats.Msg{Subject: m.Subject, Reply: m.Reply, Header: m.Header, Data: m.Data}
}

func NewMsg(subject string) *Msg { return &Msg{Subject: subject, Header: nats.Header{}} }

var errKilled = errors.New("process was killed")

func (m *Msg) Respond(data []byte) error {
	sim.Quiesce()
	if sim.Unwinding() {
		return errKilled
	}
	if m == nil || m.raw == nil || m.raw.Sub == nil {
		return nats.ErrMsgNotBound
	}
	if hook := responseHook(); hook != nil {
		if err := hook(m, data); err != nil {
			return err
		}
	}
	err := m.raw.Respond(data)
	sim.Quiesce()
	return err
}

func (m *Msg) RespondMsg(r *Msg) error {
	sim.Quiesce()
	if sim.Unwinding() {
		return errKilled
	}
	err := m.raw.RespondMsg(r.toReal())
	sim.Quiesce()
	return err
}

func (m *Msg) Ack(opts ...nats.AckOpt) error {
	if sim.Unwinding() {
		return errKilled
	}
	return m.raw.Ack(opts...)
}

// ResponseHook lets scenarios observe responses as they are sent (and fail them).
type ResponseHook func(m *Msg, data []byte) error

func SetResponseHook(w *sim.World, h ResponseHook) { w.Values["nats.respond"] = h }

func responseHook() ResponseHook {
	if w := sim.Active(); w != nil {
		if h, ok := w.Values["nats.respond"].(ResponseHook); ok {
			return h
		}
	}
	return nil
}

// Conn replaces nats.Conn.
type Conn struct {
	*nats.Conn
	w    *sim.World
	p    *sim.Proc
	id   int
	subs int
}

// Option replaces nats.Option.
type Option func(*connOpts)

type connOpts struct {
	opts []nats.Option
	srv  *simnatssrv.Server
}

func Name(name string) Option               { return real(nats.Name(name)) }
func UserInfo(user, password string) Option { return real(nats.UserInfo(user, password)) }
func Timeout(d time.Duration) Option        { return real(nats.Timeout(d)) }
func MaxReconnects(n int) Option            { return real(nats.MaxReconnects(n)) }
func ReconnectWait(d time.Duration) Option  { return real(nats.ReconnectWait(d)) }
func NoReconnect() Option                   { return real(nats.NoReconnect()) }
func RetryOnFailedConnect(b bool) Option    { return real(nats.RetryOnFailedConnect(b)) }
func PingInterval(d time.Duration) Option   { return real(nats.PingInterval(d)) }

func real(o nats.Option) Option { return func(c *connOpts) { c.opts = append(c.opts, o) } }

// InProcessServer replaces nats.InProcessServer.
func InProcessServer(srv *simnatssrv.Server) Option {
	return func(c *connOpts) { c.srv = srv }
}

type dialer struct {
	w     *sim.World
	p     *sim.Proc
	lat   time.Duration
	first bool
	srv   *simnatssrv.Server
}

func (d *dialer) Dial(_, addr string) (net.Conn, error) {
	return d.w.Net.Dial(d.p, addr, d.lat, d.first)
}

func (d *dialer) InProcessConn() (net.Conn, error) {
	if d.p.Dead() {
		return nil, errKilled
	}
	return d.srv.InProcessConn()
}

func Connect(addr string, options ...Option) (*Conn, error) {
	w, p := sim.Active(), sim.CurProc()
	if w == nil || p == nil {
		return nil, errors.New("simnats: not in a simulated process")
	}
	sim.Quiesce()
	if sim.Unwinding() {
		return nil, errKilled
	}
	var co connOpts
	for _, o := range options {
		o(&co)
	}
	d := &dialer{w: w, p: p, first: true, srv: co.srv}
	if co.srv != nil {
		co.opts = append(co.opts, nats.InProcessServer(d))
	} else {
		d.lat = w.Net.NewLatency()
		co.opts = append(co.opts, nats.SetCustomDialer(d))
		if _, err := url.Parse(addr); err != nil {
			return nil, err
		}
	}
	// Reconnection timings must be repeatable.
	co.opts = append(co.opts, nats.ReconnectJitter(0, 0), nats.DontRandomize())
	nc, err := nats.Connect(addr, co.opts...)
	d.first = false
	if err != nil {
		sim.Quiesce()
		return nil, err
	}
	n, _ := p.Values["nats.conns"].(int)
	p.Values["nats.conns"] = n + 1
	c := &Conn{Conn: nc, w: w, p: p, id: n + 1}
	p.OnExit(func() { go nc.Close() })
	sim.Quiesce()
	return c, nil
}

func (c *Conn) Close() {
	sim.Quiesce()
	if sim.Unwinding() {
		return
	}
	c.Conn.Close()
	sim.Quiesce()
}

func (c *Conn) Drain() error {
	sim.Quiesce()
	err := c.Conn.Drain()
	sim.Quiesce()
	return err
}

func (c *Conn) Flush() error {
	sim.Quiesce()
	if sim.Unwinding() {
		return errKilled
	}
	err := c.Conn.Flush()
	sim.Quiesce()
	return err
}

func (c *Conn) handler(subj string, cb MsgHandler) nats.MsgHandler {
	c.subs++
	name := fmt.Sprintf("c%d.s%d:%s", c.id, c.subs, subj)
	n := 0
	return func(m *nats.Msg) {
		n++ // messages of a subscription are delivered one by one
		c.w.Enter(c.p, fmt.Sprintf("%s#%d", name, n), func() {
			cb(wrap(c, m))
			if h, ok := c.w.Values["nats.handled"].(func(p *sim.Proc, subject string, data []byte)); ok {
				h(c.p, m.Subject, m.Data)
			}
		})
	}
}

func (c *Conn) Subscribe(subj string, cb MsgHandler) (*nats.Subscription, error) {
	sim.Quiesce()
	if sim.Unwinding() {
		return nil, errKilled
	}
	s, err := c.Conn.Subscribe(subj, c.handler(subj, cb))
	sim.Quiesce()
	return s, err
}

func (c *Conn) QueueSubscribe(subj, queue string, cb MsgHandler) (*nats.Subscription, error) {
	sim.Quiesce()
	if sim.Unwinding() {
		return nil, errKilled
	}
	s, err := c.Conn.QueueSubscribe(subj, queue, c.handler(subj, cb))
	sim.Quiesce()
	return s, err
}

func (c *Conn) Publish(subj string, data []byte) error {
	sim.Quiesce()
	if sim.Unwinding() {
		return errKilled
	}
	err := c.Conn.Publish(subj, data)
	sim.Quiesce()
	return err
}

func (c *Conn) PublishMsg(m *Msg) error {
	sim.Quiesce()
	if sim.Unwinding() {
		return errKilled
	}
	err := c.Conn.PublishMsg(m.toReal())
	sim.Quiesce()
	return err
}

func (c *Conn) request(fn func() (*nats.Msg, error)) (*Msg, error) {
	sim.Quiesce()
	if sim.Unwinding() {
		return nil, errKilled
	}
	m, err := fn()
	sim.Quiesce()
	if sim.Unwinding() {
		return nil, errKilled
	}
	if err != nil {
		return nil, err
	}
	return wrap(c, m), nil
}

func (c *Conn) RequestMsgWithContext(ctx context.Context, msg *Msg) (*Msg, error) {
	return c.request(func() (*nats.Msg, error) { return c.Conn.RequestMsgWithContext(ctx, msg.toReal()) })
}

func (c *Conn) RequestWithContext(ctx context.Context, subj string, data []byte) (*Msg, error) {
	return c.request(func() (*nats.Msg, error) { return c.Conn.RequestWithContext(ctx, subj, data) })
}

func (c *Conn) RequestMsg(msg *Msg, timeout time.Duration) (*Msg, error) {
	return c.request(func() (*nats.Msg, error) { return c.Conn.RequestMsg(msg.toReal(), timeout) })
}

func (c *Conn) Request(subj string, data []byte, timeout time.Duration) (*Msg, error) {
	return c.request(func() (*nats.Msg, error) { return c.Conn.Request(subj, data, timeout) })
}
