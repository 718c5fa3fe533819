package rt

import "unsafe"

// Channels keep their real identity; buffered ones are used through
// non-blocking real operations (which carry their real happens-before
// edges), unbuffered ones are emulated with the same pairwise edges.

type waiter struct {
	p      unsafe.Pointer // the value
	done   bool
	ok     bool
	sel    *selState
	idx    int
	next   *waiter
	a, b   [8]byte // happens-before edges of the rendezvous
	closed bool
}

type selState struct {
	done  bool
	which *waiter
}

type chanState struct {
	key    unsafe.Pointer
	sendq  *waiter
	recvq  *waiter
	closed bool
	edge   [8]byte
	next   *chanState
}

var chans *chanState

//go:norace
func chanOf(key unsafe.Pointer) *chanState {
	for c := chans; c != nil; c = c.next {
		if c.key == key {
			return c
		}
	}
	c := &chanState{key: key, next: chans}
	chans = c
	return c
}

//go:norace
func push(q **waiter, w *waiter) {
	for *q != nil {
		q = &(*q).next
	}
	*q = w
}

//go:norace
func pop(q **waiter, self *selState) *waiter {
	for p := q; *p != nil; {
		w := *p
		if w.sel != nil && w.sel == self {
			p = &w.next
			continue
		}
		*p = w.next
		w.next = nil
		if w.sel != nil {
			if w.sel.done {
				continue
			}
			w.sel.done = true
			w.sel.which = w
		}
		return w
	}
	return nil
}

//go:norace
func peek(q *waiter, self *selState) bool {
	for ; q != nil; q = q.next {
		if w := q; (w.sel == nil || !w.sel.done) && !(w.sel != nil && w.sel == self) {
			return true
		}
	}
	return false
}

//go:norace
func drop(q **waiter, w *waiter) {
	for ; *q != nil; q = &(*q).next {
		if *q == w {
			*q = w.next
			return
		}
	}
}

// sendNow completes a send if a receiver waits.
//
//go:norace
func sendNow(c *chanState, p unsafe.Pointer, self *selState) bool {
	w := pop(&c.recvq, self)
	if w == nil {
		return false
	}
	raceAcquire(unsafe.Pointer(&w.a))
	raceRelease(unsafe.Pointer(&w.b))
	w.p, w.ok, w.done = p, true, true
	gen++
	return true
}

// recvNow completes a receive if a sender waits or the channel is closed.
//
//go:norace
func recvNow(c *chanState, self *selState) (p unsafe.Pointer, ok, done bool) {
	if w := pop(&c.sendq, self); w != nil {
		raceAcquire(unsafe.Pointer(&w.a))
		raceRelease(unsafe.Pointer(&w.b))
		w.done = true
		gen++
		return w.p, true, true
	}
	if c.closed {
		raceAcquire(unsafe.Pointer(&c.edge))
		return nil, false, true
	}
	return nil, false, false
}

//go:norace
func usend(key, p unsafe.Pointer) {
	YS()
	if key == nil {
		for {
			Block("send on nil channel")
		}
	}
	c := chanOf(key)
	if c.closed {
		panic("send on closed channel")
	}
	if sendNow(c, p, nil) {
		YS()
		return
	}
	w := &waiter{p: p}
	raceRelease(unsafe.Pointer(&w.a))
	push(&c.sendq, w)
	for !w.done {
		Block("channel send")
	}
	if w.closed {
		panic("send on closed channel")
	}
	raceAcquire(unsafe.Pointer(&w.b))
}

//go:norace
func urecv(key unsafe.Pointer) (unsafe.Pointer, bool) {
	YS()
	if key == nil {
		for {
			Block("receive from nil channel")
		}
	}
	c := chanOf(key)
	if p, ok, done := recvNow(c, nil); done {
		YS()
		return p, ok
	}
	w := &waiter{}
	raceRelease(unsafe.Pointer(&w.a))
	push(&c.recvq, w)
	for !w.done {
		Block("channel receive")
	}
	if w.closed {
		raceAcquire(unsafe.Pointer(&c.edge))
		return nil, false
	}
	raceAcquire(unsafe.Pointer(&w.b))
	return w.p, w.ok
}

//go:norace
func uclose(key unsafe.Pointer) {
	c := chanOf(key)
	c.closed = true
	raceRelease(unsafe.Pointer(&c.edge))
	for w := pop(&c.recvq, nil); w != nil; w = pop(&c.recvq, nil) {
		w.done, w.closed = true, true
	}
	for w := pop(&c.sendq, nil); w != nil; w = pop(&c.sendq, nil) {
		w.done, w.closed = true, true
	}
	gen++
}

//go:norace
func managed() bool { return active }

// Send is "ch <- v", written Send(ch)(v).
//
//go:norace
func Send[C ~chan T | ~chan<- T, T any](ch C) func(T) {
	return func(v T) {
		if !managed() {
			ch <- v
			return
		}
		if cap(ch) == 0 {
			p := new(T)
			*p = v
			usend(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), unsafe.Pointer(p))
			return
		}
		YS()
		for {
			select {
			case ch <- v:
				Changed()
				return
			default:
			}
			Block("channel send")
		}
	}
}

// Recv is "<-ch".
//
//go:norace
func Recv[C ~chan T | ~<-chan T, T any](ch C) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is "v, ok := <-ch".
//
//go:norace
func Recv2[C ~chan T | ~<-chan T, T any](ch C) (v T, ok bool) {
	if !managed() {
		v, ok = <-ch
		return
	}
	if cap(ch) == 0 {
		select {
		case v, ok = <-ch: // closed, perhaps before this run
			YS()
			return
		default:
		}
		p, ok := urecv(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
		if p != nil {
			v = *(*T)(p)
		}
		return v, ok
	}
	YS()
	for {
		select {
		case v, ok = <-ch:
			Changed()
			return
		default:
		}
		Block("channel receive")
	}
}

// Close is "close(ch)".
//
//go:norace
func Close[C ~chan T | ~chan<- T, T any](ch C) {
	YS()
	close(ch)
	if managed() {
		if cap(ch) == 0 {
			uclose(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
		}
		Changed()
	}
}

// RangeInit begins a loop over a channel: the channel, and a variable for its elements.
//
//go:norace
func RangeInit[C ~chan T | ~<-chan T, T any](ch C) (c C, v T) { return ch, v }

// RangeNext is one step of "for v = range ch".
//
//go:norace
func RangeNext[C ~chan T | ~<-chan T, T any](ch C, v *T) bool {
	x, ok := Recv2(ch)
	if ok {
		*v = x
	}
	return ok
}

// RangeSkip is one step of "for range ch".
//
//go:norace
func RangeSkip[C ~chan T | ~<-chan T, T any](ch C) bool {
	_, ok := Recv2(ch)
	return ok
}

// Case is one communication of a select statement.
type Case interface {
	try(self *selState) bool
	arm(sel *selState)
	disarm()
	take() // called when the armed waiter was served
	waiting() *waiter
}

type RecvC[T any] struct {
	V    T
	Ok   bool
	key  unsafe.Pointer
	buf  func() (T, bool, bool)
	emul bool // unbuffered: the real channel only ever reports that it was closed
	w    *waiter
}

type SendC[T any] struct {
	v   T
	key unsafe.Pointer
	buf func(T) bool
	w   *waiter
}

// RecvCase is the case "v, ok := <-ch".
//
//go:norace
func RecvCase[C ~chan T | ~<-chan T, T any](ch C) *RecvC[T] {
	c := &RecvC[T]{key: *(*unsafe.Pointer)(unsafe.Pointer(&ch))}
	c.emul = cap(ch) == 0 && managed()
	c.buf = func() (T, bool, bool) {
		select {
		case v, ok := <-ch:
			return v, ok, true
		default:
			var z T
			return z, false, false
		}
	}
	return c
}

// SendCase is the case "ch <- v", written SendCase(ch)(v).
//
//go:norace
func SendCase[C ~chan T | ~chan<- T, T any](ch C) func(T) *SendC[T] {
	return func(v T) *SendC[T] {
		c := &SendC[T]{v: v, key: *(*unsafe.Pointer)(unsafe.Pointer(&ch))}
		if cap(ch) > 0 || !managed() {
			c.buf = func(v T) bool {
				select {
				case ch <- v:
					return true
				default:
					return false
				}
			}
		}
		return c
	}
}

//go:norace
func (c *RecvC[T]) try(self *selState) bool {
	if c.key == nil {
		return false
	}
	var done bool
	if c.V, c.Ok, done = c.buf(); done || !c.emul {
		return done
	}
	p, ok, done := recvNow(chanOf(c.key), self)
	if !done {
		return false
	}
	if p != nil {
		c.V = *(*T)(p)
	}
	c.Ok = ok
	return true
}

//go:norace
func (c *RecvC[T]) arm(sel *selState) {
	if c.key == nil || !c.emul {
		return
	}
	c.w = &waiter{sel: sel}
	raceRelease(unsafe.Pointer(&c.w.a))
	push(&chanOf(c.key).recvq, c.w)
}

//go:norace
func (c *RecvC[T]) disarm() {
	if c.w != nil {
		drop(&chanOf(c.key).recvq, c.w)
	}
}

//go:norace
func (c *RecvC[T]) take() {
	if c.w.closed {
		raceAcquire(unsafe.Pointer(&chanOf(c.key).edge))
		return
	}
	raceAcquire(unsafe.Pointer(&c.w.b))
	if c.w.p != nil {
		c.V = *(*T)(c.w.p)
	}
	c.Ok = c.w.ok
}

//go:norace
func (c *RecvC[T]) waiting() *waiter { return c.w }

//go:norace
func (c *SendC[T]) try(self *selState) bool {
	if c.key == nil {
		return false
	}
	if c.buf != nil {
		return c.buf(c.v)
	}
	st := chanOf(c.key)
	if st.closed {
		panic("send on closed channel")
	}
	p := new(T)
	*p = c.v
	return sendNow(st, unsafe.Pointer(p), self)
}

//go:norace
func (c *SendC[T]) arm(sel *selState) {
	if c.key == nil || c.buf != nil {
		return
	}
	p := new(T)
	*p = c.v
	c.w = &waiter{sel: sel, p: unsafe.Pointer(p)}
	raceRelease(unsafe.Pointer(&c.w.a))
	push(&chanOf(c.key).sendq, c.w)
}

//go:norace
func (c *SendC[T]) disarm() {
	if c.w != nil {
		drop(&chanOf(c.key).sendq, c.w)
	}
}

//go:norace
func (c *SendC[T]) take() {
	if c.w.closed {
		panic("send on closed channel")
	}
	raceAcquire(unsafe.Pointer(&c.w.b))
}

//go:norace
func (c *SendC[T]) waiting() *waiter { return c.w }

// Select runs a select statement and returns the index of the chosen case,
// or -1 for the default.
//
//go:norace
func Select(hasDefault bool, cases ...Case) int {
	YS()
	sel := &selState{}
	first := 0
	if n := len(cases); n > 0 {
		selRng = selRng*6364136223846793005 + 1442695040888963407
		first = int((selRng >> 33) % uint64(n))
	}
	armed := false
	for {
		if sel.done {
			for i, c := range cases {
				if c.waiting() == sel.which {
					for _, o := range cases {
						o.disarm()
					}
					c.take()
					return i
				}
			}
		}
		for k := range cases {
			i := (first + k) % len(cases)
			if cases[i].try(sel) {
				sel.done = true
				for _, o := range cases {
					o.disarm()
				}
				Changed()
				return i
			}
		}
		if hasDefault {
			return -1
		}
		if !armed {
			armed = true
			for _, c := range cases {
				c.arm(sel)
			}
			Changed()
		}
		Block("select")
	}
}
