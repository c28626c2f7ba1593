// Package sio stands in for io.Pipe, whose two ends wait for each other.
package sio

import (
	"io"

	"ecksbee.com/telefacts/vsim/ssync"
)

type pipe struct {
	one        ssync.Mutex // one writer at a time
	mu         ssync.Mutex
	c          *ssync.Cond
	data       []byte
	full       bool
	rerr, werr error
}

type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	p.c = ssync.NewCond(&p.mu)
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		switch {
		case p.rerr != nil:
			return 0, io.ErrClosedPipe
		case p.full:
			n := copy(b, p.data)
			p.data = p.data[n:]
			if len(p.data) == 0 {
				p.full = false
				p.c.Broadcast()
			}
			return n, nil
		case p.werr != nil:
			return 0, p.werr
		}
		p.c.Wait()
	}
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	r.p.mu.Lock()
	defer r.p.mu.Unlock()
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	r.p.c.Broadcast()
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	p.one.Lock()
	defer p.one.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.werr != nil {
		return 0, io.ErrClosedPipe
	}
	p.data, p.full = b, true
	p.c.Broadcast()
	for p.full && p.rerr == nil && p.werr == nil {
		p.c.Wait()
	}
	n := len(b)
	if p.full {
		n -= len(p.data)
		p.full = false
		if p.rerr != nil {
			return n, p.rerr
		}
		return n, io.ErrClosedPipe
	}
	return n, nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	w.p.mu.Lock()
	defer w.p.mu.Unlock()
	if w.p.werr == nil {
		w.p.werr = err
	}
	w.p.c.Broadcast()
	return nil
}
