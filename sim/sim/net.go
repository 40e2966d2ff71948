package sim

import (
	"errors"
	"fmt"
	"io"
	"net"
	"slices"
	"sync"
	"syscall"
	"time"
)

// Net is the simulated loopback network. Connections are in-memory pipes to the
// real NATS server; the simulator decides latencies and cuts.
type Net struct {
	w         *World
	listeners map[string]*Listener
	nextPort  int
	links     []*Link
	// Latency picks the one-way latency of a new connection.
	Latency func() time.Duration
	// OnListen is called when a listener was installed.
	OnListen func(*Listener)
	// Port picks the ephemeral port of a new listener, provided one that is unused.
	Port func(def int) int
	// Refuse decides whether a dial is refused (fault).
	Refuse func(p *Proc, addr string) bool
	latSeq int
	mu     sync.Mutex
}

// Listener is a listening simulated server.
type Listener struct {
	Addr   string
	Proc   *Proc
	Accept func() (net.Conn, error)
	Ready  func() bool
}

// Link is an established connection.
type Link struct {
	Client, Server *Proc
	Addr           string
	once           sync.Once
	closeFn        func()
	Closed         bool
}

func newNet(w *World) *Net { return &Net{w: w, listeners: map[string]*Listener{}, nextPort: 40000} }

// Listen registers a listener on the provided port (0 or negative: any).
func (n *Net) Listen(host string, port int, proc *Proc, accept func() (net.Conn, error)) (*Listener, error) {
	if port <= 0 {
		n.nextPort++
		port = n.nextPort
		if n.Port != nil {
			port = n.Port(n.nextPort)
		}
	}
	addr := net.JoinHostPort(host, fmt.Sprint(port))
	if _, used := n.listeners[addr]; used {
		return nil, fmt.Errorf("listen tcp %s: %w", addr, syscall.EADDRINUSE)
	}
	l := &Listener{Addr: addr, Proc: proc, Accept: accept}
	n.mu.Lock()
	n.listeners[addr] = l
	n.mu.Unlock()
	n.w.Logf("listen %s by process %d", addr, proc.Idx)
	if n.OnListen != nil {
		n.OnListen(l)
	}
	return l, nil
}

// Unlisten removes a listener.
func (n *Net) Unlisten(l *Listener) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.listeners[l.Addr] == l {
		delete(n.listeners, l.Addr)
		n.w.Logf("unlisten %s", l.Addr)
	}
}

// Listening returns the listener at the address, if any.
func (n *Net) Listening(addr string) *Listener { return n.listeners[addr] }

// ListenerOf returns the listener of the process, if it has one.
func (n *Net) ListenerOf(p *Proc) *Listener {
	n.mu.Lock()
	defer n.mu.Unlock()
	for _, l := range n.listeners {
		if l.Proc == p {
			return l
		}
	}
	return nil
}

// Listeners returns the number of live listeners.
func (n *Net) Listeners() int { return len(n.listeners) }

// NewLatency draws the one-way latency of a new client connection. Values (and
// their sums) are distinct so that no two messages arrive at the very same instant.
func (n *Net) NewLatency() time.Duration {
	if n.Latency == nil {
		return 0
	}
	d := n.Latency()
	if d > 0 {
		n.latSeq++
		d += time.Duration(1+NewRand(uint64(n.latSeq)*0x9E3779B97F4A7C15).Uint64()%999_983) * time.Nanosecond
		n.w.Count("fault:latency")
	}
	return d
}

// Dial connects the process to the listener at the provided address. When first
// is false, the dial is a reconnection attempt by a goroutine that is not
// scheduled by the simulator, and no decision may be drawn. There is no latency
// either: the NATS client holds a lock while it shakes hands, and simulated time
// does not pass while some goroutine waits for a lock.
func (n *Net) Dial(p *Proc, addr string, lat time.Duration, first bool) (net.Conn, error) {
	if !first {
		lat = 0
	}
	n.mu.Lock()
	l := n.listeners[addr]
	n.mu.Unlock()
	if p.dead || l == nil || l.Proc.dead {
		if first {
			n.w.Logf("dial %s by process %d: refused", addr, p.Idx)
		}
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
	}
	if first && n.Refuse != nil && n.Refuse(p, addr) {
		n.w.Count("fault:dial-refused")
		n.w.Logf("dial %s by process %d: refused (fault)", addr, p.Idx)
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
	}
	srv, err := l.Accept()
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: err}
	}
	if first {
		n.w.Logf("dial %s by process %d: connected (latency %v)", addr, p.Idx, lat)
	}
	link := &Link{Client: p, Server: l.Proc, Addr: addr}
	n.mu.Lock()
	n.links = append(n.links, link)
	n.mu.Unlock()
	var cl net.Conn
	if lat == 0 {
		cl = srv
		link.closeFn = func() { srv.Close() }
	} else {
		a, b := net.Pipe()
		cl = a
		go pump(b, srv, lat)
		go pump(srv, b, lat)
		link.closeFn = func() { a.Close(); b.Close(); srv.Close() }
	}
	p.OnExit(link.Cut)
	l.Proc.OnExit(link.Cut)
	return &simConn{Conn: cl, link: link}, nil
}

// simConn makes the connection look like TCP from 127.0.0.1.
type simConn struct {
	net.Conn
	link *Link
}

func (c *simConn) RemoteAddr() net.Addr {
	a, _ := net.ResolveTCPAddr("tcp", c.link.Addr)
	return a
}

func (c *simConn) LocalAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 39999} }

func (c *simConn) Close() error {
	c.link.Cut()
	return nil
}

// Cut severs the connection.
func (l *Link) Cut() {
	l.once.Do(func() {
		l.Closed = true
		l.closeFn()
	})
}

// OpenLinks returns the links that were not cut.
func (n *Net) OpenLinks() []*Link {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.links = slices.DeleteFunc(n.links, func(l *Link) bool { return l.Closed })
	return slices.Clone(n.links)
}

type chunk struct {
	at   time.Time
	data []byte
}

func pump(dst, src net.Conn, lat time.Duration) {
	ch := make(chan chunk, 1024)
	go func() {
		defer dst.Close()
		for c := range ch {
			if d := time.Until(c.at); d > 0 {
				time.Sleep(d)
			}
			if _, err := dst.Write(c.data); err != nil {
				src.Close()
				for range ch {
				}
				return
			}
		}
	}()
	buf := make([]byte, 64*1024)
	for {
		n, err := src.Read(buf)
		if n > 0 {
			ch <- chunk{time.Now().Add(lat), append([]byte(nil), buf[:n]...)}
		}
		if err != nil {
			if !errors.Is(err, io.EOF) {
				_ = err
			}
			close(ch)
			return
		}
	}
}
