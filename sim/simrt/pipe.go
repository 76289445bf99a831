package simrt

import "io"

// ioPipe is what replaces io.Pipe.
type ioPipe struct {
	mu         Mutex
	cond       *Cond
	wr         Mutex // one Write at a time
	data       []byte
	waiting    bool // a Write's data is not yet taken
	rerr, werr error
}

type PipeReader struct{ p *ioPipe }
type PipeWriter struct{ p *ioPipe }

func Pipe() (*PipeReader, *PipeWriter) {
	p := &ioPipe{}
	p.cond = NewCond(&p.mu)
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		switch {
		case p.rerr != nil:
			return 0, io.ErrClosedPipe
		case p.waiting:
			n := copy(b, p.data)
			p.data = p.data[n:]
			if len(p.data) == 0 {
				p.waiting = false
				p.cond.Broadcast()
			}
			return n, nil
		case p.werr != nil:
			return 0, p.werr
		}
		p.cond.Wait()
	}
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(e error) error {
	if e == nil {
		e = io.ErrClosedPipe
	}
	r.p.mu.Lock()
	defer r.p.mu.Unlock()
	if r.p.rerr == nil {
		r.p.rerr = e
	}
	r.p.cond.Broadcast()
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	p.wr.Lock()
	defer p.wr.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.werr != nil {
		return 0, io.ErrClosedPipe
	}
	if p.rerr != nil {
		return 0, p.rerr
	}
	p.data, p.waiting = b, true
	p.cond.Broadcast()
	for p.waiting && p.rerr == nil && p.werr == nil {
		p.cond.Wait()
	}
	n := len(b) - len(p.data)
	if !p.waiting {
		return n, nil
	}
	p.waiting = false
	if p.rerr != nil {
		return n, p.rerr
	}
	return n, io.ErrClosedPipe
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(e error) error {
	if e == nil {
		e = io.EOF
	}
	w.p.mu.Lock()
	defer w.p.mu.Unlock()
	if w.p.werr == nil {
		w.p.werr = e
	}
	w.p.cond.Broadcast()
	return nil
}
