// Package simstd stands in for the blocking parts of the standard library
// (pipes, contexts, timers) in the system under test: the library's own
// algorithms, with every wait decided by the simulator's scheduler and every
// delay measured on the simulated clock.
package simstd

import (
	"io"

	"verif.local/sim/rt"
	"verif.local/sim/simsync"
)

type onceError struct {
	mu  simsync.Mutex
	err error
}

func (a *onceError) Store(err error) {
	a.mu.Lock()
	defer a.mu.Unlock()
	if a.err == nil {
		a.err = err
	}
}

func (a *onceError) Load() error {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.err
}

type pipe struct {
	wrMu simsync.Mutex
	wrCh chan []byte
	rdCh chan int
	once simsync.Once
	done chan struct{}
	rerr onceError
	werr onceError
}

func (p *pipe) over() bool {
	return rt.Select(true, rt.RecvCase(p.done)) == 0
}

func (p *pipe) read(b []byte) (n int, err error) {
	if p.over() {
		return 0, p.readCloseError()
	}
	w := rt.RecvCase(p.wrCh)
	d := rt.RecvCase(p.done)
	switch rt.Select(false, w, d) {
	case 0:
		nr := copy(b, w.V)
		rt.Send(p.rdCh)(nr)
		return nr, nil
	default:
		return 0, p.readCloseError()
	}
}

func (p *pipe) closeRead(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	p.rerr.Store(err)
	p.once.Do(func() { rt.Close(p.done) })
	return nil
}

func (p *pipe) write(b []byte) (n int, err error) {
	if p.over() {
		return 0, p.writeCloseError()
	}
	p.wrMu.Lock()
	defer p.wrMu.Unlock()
	for once := true; once || len(b) > 0; once = false {
		w := rt.SendCase(p.wrCh)(b)
		d := rt.RecvCase(p.done)
		switch rt.Select(false, w, d) {
		case 0:
			nw := rt.Recv(p.rdCh)
			b = b[nw:]
			n += nw
		default:
			return n, p.writeCloseError()
		}
	}
	return n, nil
}

func (p *pipe) closeWrite(err error) error {
	if err == nil {
		err = io.EOF
	}
	p.werr.Store(err)
	p.once.Do(func() { rt.Close(p.done) })
	return nil
}

func (p *pipe) readCloseError() error {
	rerr := p.rerr.Load()
	if werr := p.werr.Load(); rerr == nil && werr != nil {
		return werr
	}
	return io.ErrClosedPipe
}

func (p *pipe) writeCloseError() error {
	werr := p.werr.Load()
	if rerr := p.rerr.Load(); werr == nil && rerr != nil {
		return rerr
	}
	return io.ErrClosedPipe
}

// PipeReader stands in for io.PipeReader.
type PipeReader struct{ p *pipe }

func (r *PipeReader) Read(data []byte) (n int, err error) { return r.p.read(data) }
func (r *PipeReader) Close() error                        { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error      { return r.p.closeRead(err) }

// PipeWriter stands in for io.PipeWriter.
type PipeWriter struct{ p *pipe }

func (w *PipeWriter) Write(data []byte) (n int, err error) { return w.p.write(data) }
func (w *PipeWriter) Close() error                         { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error       { return w.p.closeWrite(err) }

// Pipe stands in for io.Pipe.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{wrCh: make(chan []byte), rdCh: make(chan int), done: make(chan struct{})}
	return &PipeReader{p}, &PipeWriter{p}
}
