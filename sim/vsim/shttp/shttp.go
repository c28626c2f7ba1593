// Package shttp stands in for the parts of net/http that own sockets or read the disk. The
// driver plays the clients: it hands requests to the listening server.
package shttp

import (
	"context"
	"fmt"
	"net"
	"net/http"
	"os"
	"path"
	"runtime/debug"
	"syscall"
	"time"
	"unsafe"

	"ecksbee.com/telefacts/vsim"
	"ecksbee.com/telefacts/vsim/scontext"
	"ecksbee.com/telefacts/vsim/slog"
	"ecksbee.com/telefacts/vsim/sos"
	"ecksbee.com/telefacts/vsim/ssync"
	"ecksbee.com/telefacts/vsim/stime"
)

// Server mirrors the fields of http.Server that a program may set.
type Server struct {
	Addr              string
	Handler           http.Handler
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	MaxHeaderBytes    int
	BaseContext       func(net.Listener) context.Context
	ConnContext       func(context.Context, net.Conn) context.Context
	ConnState         func(net.Conn, http.ConnState)
	ErrorLog          *slog.Logger

	st     *state
	onStop []func()
}

// state is the bookkeeping of a server. It is only touched by the running task in norace
// functions: requests must not order each other through it.
type state struct {
	srv    *Server
	active int
	down   bool
	closed bool
	stop   chan struct{}
	tok    int64 // the listener happens before every request
	end    int64 // every finished request happens before the end of Shutdown
	wto    time.Duration
	h      http.Handler
	base   context.Context
}

var listening *state

// DefaultServeMux is that of the simulated process.
var DefaultServeMux = http.NewServeMux()

func Handle(pattern string, h http.Handler) { DefaultServeMux.Handle(pattern, h) }

func HandleFunc(pattern string, h func(http.ResponseWriter, *http.Request)) {
	DefaultServeMux.HandleFunc(pattern, h)
}

//go:norace
func Reset() {
	listening = nil
	DefaultServeMux = http.NewServeMux()
}

// Up tells whether a server accepts connections.
//
//go:norace
func Up() bool { return listening != nil }

//go:norace
func (s *Server) state() *state {
	if s.st == nil {
		s.st = &state{srv: s}
	}
	return s.st
}

//go:norace
func (s *Server) enter() (chan struct{}, bool) {
	st := s.state()
	if st.down {
		return nil, false
	}
	st.stop = vsim.MakeChan[struct{}](0)
	if st.down {
		return nil, false
	}
	st.wto, st.h = s.WriteTimeout, s.Handler
	if st.h == nil {
		st.h = DefaultServeMux
	}
	if s.BaseContext != nil {
		st.base = s.BaseContext(nil)
	}
	vsim.Release(unsafe.Pointer(&st.tok))
	listening = st
	return st.stop, true
}

func (s *Server) ListenAndServe() error {
	vsim.Yield()
	stop, ok := s.enter()
	if !ok {
		return http.ErrServerClosed
	}
	vsim.Recv((<-chan struct{})(stop))
	return http.ErrServerClosed
}

// Serve is ListenAndServe for a listener that was opened before.
func (s *Server) Serve(l net.Listener) error { return s.ListenAndServe() }

func (s *Server) SetKeepAlivesEnabled(bool) {}

func Serve(l net.Listener, h http.Handler) error { return ListenAndServe("", h) }

func ListenAndServe(addr string, h http.Handler) error {
	if h == nil {
		h = DefaultServeMux
	}
	s := &Server{Addr: addr, Handler: h}
	return s.ListenAndServe()
}

func (s *Server) RegisterOnShutdown(f func()) { s.onStop = append(s.onStop, f) }

//go:norace
func (s *Server) leave(closed bool) chan struct{} {
	st := s.state()
	was := st.stop
	if st.down {
		was = nil
	}
	st.down = true
	if closed {
		st.closed = true
	}
	if listening == st {
		listening = nil
	}
	return was
}

//go:norace
func (s *Server) idle() bool {
	st := s.state()
	if st.active > 0 {
		return false
	}
	vsim.Acquire(unsafe.Pointer(&st.end))
	return true
}

// Shutdown stops accepting and polls until no request is active, as the real one does.
func (s *Server) Shutdown(ctx context.Context) error {
	vsim.Yield()
	if stop := s.leave(false); stop != nil {
		vsim.Close(stop)
	}
	for _, f := range s.onStop {
		vsim.Go("http.RegisterOnShutdown", f)
	}
	wait := time.Millisecond
	for {
		if s.idle() {
			return nil
		}
		tm := stime.NewTimer(wait)
		sel := vsim.Select(false, vsim.CaseRecv(ctx.Done()), vsim.CaseRecv(tm.C))
		if sel.Idx == 0 {
			tm.Stop()
			return ctx.Err()
		}
		if wait *= 2; wait > 500*time.Millisecond {
			wait = 500 * time.Millisecond
		}
	}
}

// Close also cuts the connections of the active requests.
func (s *Server) Close() error {
	vsim.Yield()
	if stop := s.leave(true); stop != nil {
		vsim.Close(stop)
	}
	return nil
}

// Outcome tells what became of the connection of a request.
type Outcome struct {
	Refused  bool
	Accepted bool
	Aborted  bool   // the handler panicked or the connection was cut
	Panic    string // what the handler panicked with
	Stack    string
	Late     bool // the answer was written after the write timeout
	Gone     bool // the client went away before it had the answer
	Lost     bool // a write to the client failed
	Slow     bool // a write had to wait for the client
	Start    int64
	End      int64
}

// Line is how a client takes its answer. The first bytes fit into the buffers on the way; what
// comes after waits for the client.
type Line struct {
	PerKB int64 // nanoseconds for every KB
	Stuck bool  // the client stops reading
	Leave bool  // the client disconnects
	After int64 // so many nanoseconds after its request was accepted
	Turns int   // and so many turns of the scheduler later
}

const buffered = 2048

// conn is the connection of a request as the handler sees it.
type conn struct {
	w     http.ResponseWriter
	o     *Outcome
	line  *Line
	until int64 // the write deadline
	sent  int
}

func (c *conn) Header() http.Header { return c.w.Header() }

func (c *conn) WriteHeader(code int) { c.w.WriteHeader(code) }

func (c *conn) Flush() {
	if f, ok := c.w.(http.Flusher); ok {
		f.Flush()
	}
}

func (c *conn) SetReadDeadline(time.Time) error { return nil }

func (c *conn) SetWriteDeadline(t time.Time) error {
	c.until = 0
	if !t.IsZero() {
		c.until = t.UnixNano()
	}
	return nil
}

func (c *conn) EnableFullDuplex() error { return nil }

func (c *conn) Write(b []byte) (int, error) {
	if c.line == nil {
		return c.w.Write(b)
	}
	vsim.Yield()
	c.sent += len(b)
	if c.sent <= buffered {
		return c.w.Write(b)
	}
	now := vsim.NowNanos()
	end := now + c.line.PerKB*int64(len(b)+1023)/1024
	if c.line.Stuck {
		end = now + 3600e9
		if c.line.Leave {
			end = c.o.Start + c.line.After
		}
	}
	late := c.until > 0 && end > c.until
	if late {
		end = c.until
	}
	if end > now {
		c.o.Slow = true
		vsim.Sleep(end - now)
	}
	switch {
	case late:
		c.o.Lost = true
		return 0, fail(os.ErrDeadlineExceeded)
	case c.line.Stuck || c.gone():
		c.o.Lost = true
		return 0, fail(syscall.EPIPE)
	}
	return c.w.Write(b)
}

//go:norace
func (c *conn) gone() bool { return c.o.Gone }

//go:norace
func (c *conn) leave() { c.o.Gone = c.o.End == 0 }

func fail(err error) error { return &net.OpError{Op: "write", Net: "tcp", Err: err} }

//go:norace
func accept() *state {
	st := listening
	if st == nil {
		return nil
	}
	st.active++
	vsim.Acquire(unsafe.Pointer(&st.tok))
	return st
}

//go:norace
func (st *state) release() (cut bool) {
	st.active--
	vsim.ReleaseMerge(unsafe.Pointer(&st.end))
	return st.closed
}

// Deliver is called by a simulated client task. It fills in o as the request goes along.
func Deliver(o *Outcome, w http.ResponseWriter, r *http.Request, line *Line) {
	vsim.Yield()
	st := accept()
	if st == nil {
		o.Refused = true
		o.Start = vsim.NowNanos()
		return
	}
	o.Start = vsim.NowNanos()
	o.Accepted = true
	c := &conn{w: w, o: o, line: line}
	if st.wto > 0 {
		c.until = o.Start + int64(st.wto)
	}
	ctx := r.Context()
	if st.base != nil {
		ctx = st.base
	}
	ctx, cancel := scontext.WithCancel(ctx)
	r = r.WithContext(ctx)
	if line != nil && line.Leave {
		vsim.Go("http.conn", func() {
			if line.After > 0 {
				vsim.Sleep(line.After)
			}
			for i := 0; i < line.Turns; i++ {
				vsim.Yield()
			}
			c.leave()
			cancel()
		})
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				o.Aborted = true
				o.Panic = fmt.Sprint(e)
				o.Stack = string(debug.Stack())
			}
		}()
		st.h.ServeHTTP(c, r)
	}()
	cancel()
	o.End = vsim.NowNanos()
	if st.release() {
		o.Aborted = true
	}
	o.Late = c.until > 0 && o.End > c.until
}

// Dir is http.Dir on the simulated disk.
type Dir string

type dirFile struct{ *sos.File }

func (d Dir) Open(name string) (http.File, error) {
	p := string(d)
	if p == "" {
		p = "."
	}
	f, err := sos.Open(p + path.Clean("/"+name))
	if err != nil {
		return nil, err
	}
	return dirFile{f}, nil
}

// ServeFile is http.ServeFile on the simulated disk.
func ServeFile(w http.ResponseWriter, r *http.Request, name string) {
	dir, file := path.Split(name)
	if dir == "" {
		dir = "."
	}
	f, err := Dir(dir).Open(file)
	if err != nil {
		http.NotFound(w, r)
		return
	}
	defer f.Close()
	i, err := f.Stat()
	if err != nil || i.IsDir() {
		http.NotFound(w, r)
		return
	}
	http.ServeContent(w, r, i.Name(), i.ModTime(), f)
}

// TimeoutHandler is http.TimeoutHandler with simulated goroutines and time.
func TimeoutHandler(h http.Handler, dt time.Duration, msg string) http.Handler {
	return &timeoutHandler{h, dt, msg}
}

type timeoutHandler struct {
	h   http.Handler
	dt  time.Duration
	msg string
}

func (h *timeoutHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	ctx, cancel := scontext.WithTimeout(r.Context(), h.dt)
	defer cancel()
	r = r.WithContext(ctx)
	done := vsim.MakeChan[struct{}](0)
	panics := vsim.MakeChan[any](1)
	tw := &timeoutWriter{h: http.Header{}}
	vsim.Go("http.TimeoutHandler", func() {
		defer func() {
			if p := recover(); p != nil {
				vsim.Send(panics, p)
			}
		}()
		h.h.ServeHTTP(tw, r)
		vsim.Close(done)
	})
	sel := vsim.Select(false, vsim.CaseRecv((<-chan any)(panics)), vsim.CaseRecv((<-chan struct{})(done)), vsim.CaseRecv(ctx.Done()))
	switch sel.Idx {
	case 0:
		panic(sel.Val)
	case 1:
		tw.mu.Lock()
		defer tw.mu.Unlock()
		for k, v := range tw.h {
			w.Header()[k] = v
		}
		if tw.code == 0 {
			tw.code = http.StatusOK
		}
		w.WriteHeader(tw.code)
		w.Write(tw.buf)
	default:
		tw.mu.Lock()
		defer tw.mu.Unlock()
		tw.over = true
		w.WriteHeader(http.StatusServiceUnavailable)
		if h.msg == "" {
			w.Write([]byte("<html><head><title>Timeout</title></head><body><h1>Timeout</h1></body></html>"))
		} else {
			w.Write([]byte(h.msg))
		}
	}
}

type timeoutWriter struct {
	mu   ssync.Mutex
	h    http.Header
	buf  []byte
	code int
	over bool
}

func (w *timeoutWriter) Header() http.Header { return w.h }

func (w *timeoutWriter) Write(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.over {
		return 0, http.ErrHandlerTimeout
	}
	if w.code == 0 {
		w.code = http.StatusOK
	}
	w.buf = append(w.buf, b...)
	return len(b), nil
}

func (w *timeoutWriter) WriteHeader(code int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if !w.over && w.code == 0 {
		w.code = code
	}
}
