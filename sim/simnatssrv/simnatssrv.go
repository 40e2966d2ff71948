// Package simnatssrv wraps the real NATS server: it runs unmodified, except
// that its listening socket is one of the simulated network.
package simnatssrv

import (
	"errors"
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/nats-io/nats-server/v2/server"

	"github.com/DataDog/orchestrion/internal/verifsim/sim"
)

// Server replaces server.Server.
type Server struct {
	*server.Server
	w      *sim.World
	p      *sim.Proc
	listen bool
	host   string
	port   int
	l      *sim.Listener
	done   chan struct{}
}

func NewServer(opts *server.Options) (*Server, error) {
	w, p := sim.Active(), sim.CurProc()
	if w == nil || p == nil {
		return nil, errors.New("simnatssrv: not in a simulated process")
	}
	sim.Point()
	cp := *opts
	s := &Server{w: w, p: p, listen: !opts.DontListen, host: opts.Host, port: opts.Port, done: make(chan struct{})}
	cp.NoSigs = true
	cp.DontListen = true
	cp.NoLog = true
	real, err := server.NewServer(&cp)
	if err != nil {
		return nil, err
	}
	s.Server = real
	p.OnExit(func() {
		s.unlisten()
		go real.Shutdown()
	})
	return s, nil
}

func (s *Server) unlisten() {
	if s.l != nil {
		s.w.Net.Unlisten(s.l)
		s.l = nil
	}
}

func (s *Server) ConfigureLogger() {}

func (s *Server) Start() {
	sim.Quiesce()
	if sim.Unwinding() {
		return
	}
	s.Server.Start()
	go func() {
		s.Server.WaitForShutdown()
		close(s.done)
	}()
	if s.listen {
		l, err := s.w.Net.Listen(s.host, s.port, s.p, s.Server.InProcessConn)
		if err != nil {
			// The real server exits through its logger's Fatalf.
			s.w.Logf("server of process %d: %v", s.p.Idx, err)
			s.p.Exit(1)
			return
		}
		s.l = l
	}
	sim.Quiesce()
}

func (s *Server) ReadyForConnections(d time.Duration) bool {
	sim.Quiesce()
	if sim.Unwinding() {
		return false
	}
	res := s.Server.ReadyForConnections(d)
	sim.Quiesce()
	return res
}

func (s *Server) Addr() net.Addr {
	if s.l == nil {
		return nil
	}
	a, _ := net.ResolveTCPAddr("tcp", s.l.Addr)
	return a
}

func (s *Server) ClientURL() string {
	if s.l == nil {
		return fmt.Sprintf("nats://%s:%d", s.host, s.port)
	}
	return "nats://" + strings.TrimSpace(s.l.Addr)
}

func (s *Server) Shutdown() {
	sim.Quiesce()
	if sim.Unwinding() {
		return
	}
	s.w.Count("nats-shutdown")
	if h, ok := s.w.Values["nats.shutdown"].(func(p *sim.Proc)); ok {
		h(s.p)
	}
	s.unlisten()
	s.Server.Shutdown()
	sim.Quiesce()
}

func (s *Server) LameDuckShutdown() { s.Shutdown() }

func (s *Server) WaitForShutdown() {
	sim.Recv(s.done)
}

func (s *Server) InProcessConn() (net.Conn, error) { return s.Server.InProcessConn() }
