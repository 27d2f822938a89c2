package main

// Goroutines, mutexes, wait groups and channels of the interpreted program.
// One real goroutine per interpreted goroutine, one of them running at a time.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Gor struct {
	id          int
	resume      chan struct{}
	stack       []*ssa.Function
	depth       int
	panicFrames []*frame
	done        bool
	ready       func() bool
	dead        chan struct{}
}

type mutexState struct {
	w       bool
	readers int
}

func (m *M) mainGor() {
	if m.cur == nil || len(m.gors) == 0 {
		g := &Gor{id: 0, resume: make(chan struct{})}
		m.gors = []*Gor{g}
		m.cur = g
	}
}

func (m *M) spawn(fn Value, args []Value) {
	if m.mg != nil {
		panic(mergeAbort{})
	}
	if m.initMode {
		panic(m.unsupported("go statement in package initialisation"))
	}
	m.mainGor()
	g := &Gor{id: len(m.gors), resume: make(chan struct{}), dead: make(chan struct{})}
	m.gors = append(m.gors, g)
	if len(m.gors) > 64 {
		panic(m.unsupported("too many goroutines"))
	}
	go func() {
		<-g.resume
		defer close(g.dead)
		var end any
		func() {
			defer func() { end = recover() }()
			if m.killing {
				panic(pathEnd{"killed", ""})
			}
			m.callValue(fn, args)
		}()
		g.done = true
		if m.killing {
			return
		}
		if end != nil {
			// transport to the main goroutine
			m.abort = end
			m.switchTo(m.gors[0], false)
			return
		}
		n := m.pick(false)
		if n == nil {
			m.abort = goPanic{where: "deadlock: all goroutines are asleep", fatal: true}
			n = m.gors[0]
		}
		m.switchTo(n, false)
	}()
	m.yieldPoint()
}

// pick selects a runnable goroutine; self tells whether the current one may be
// chosen.
func (m *M) pick(self bool) *Gor {
	var l []*Gor
	if self {
		l = append(l, m.cur)
	}
	for _, g := range m.gors {
		if g == m.cur || g.done {
			continue
		}
		if g.ready == nil || g.ready() {
			l = append(l, g)
		}
	}
	if len(l) == 0 {
		return nil
	}
	if m.schedules && len(l) > 1 {
		return l[m.choose(len(l))]
	}
	return l[0]
}

func (m *M) saveCur() {
	g := m.cur
	g.stack = append([]*ssa.Function{}, m.stack...)
	g.depth = m.depth
	g.panicFrames = append([]*frame{}, m.panicFrames...)
}

// switchTo hands the baton over; with wait it returns when resumed.
func (m *M) switchTo(g *Gor, wait bool) {
	me := m.cur
	m.saveCur()
	m.cur = g
	m.stack = append([]*ssa.Function{}, g.stack...)
	m.depth = g.depth
	m.panicFrames = append([]*frame{}, g.panicFrames...)
	g.ready = nil
	g.resume <- struct{}{}
	if wait {
		m.await(me)
	}
}

func (m *M) await(me *Gor) {
	<-me.resume
	if m.killing {
		panic(pathEnd{"killed", ""})
	}
	if me.id == 0 && m.abort != nil {
		a := m.abort
		m.abort = nil
		panic(a)
	}
}

// yieldPoint lets the scheduler switch at a visible operation.
func (m *M) yieldPoint() {
	if !m.schedules || len(m.gors) < 2 || m.spec > 0 || m.mg != nil || m.initMode {
		return
	}
	if g := m.pick(true); g != nil && g != m.cur {
		m.switchTo(g, true)
	}
}

// block waits until ready holds.
func (m *M) block(ready func() bool, what string) {
	m.impure()
	if m.mg != nil {
		panic(mergeAbort{})
	}
	for !ready() {
		m.mainGor()
		m.cur.ready = ready
		n := m.pick(false)
		if n == nil {
			d := goPanic{where: "deadlock: all goroutines are asleep (" + what + ") @ " + m.whereAmI(), fatal: true}
			if m.cur.id == 0 {
				panic(d)
			}
			m.abort = d
			n = m.gors[0]
		}
		m.switchTo(n, true)
	}
}

// killAll ends the other goroutines at the end of a path.
func (m *M) killAll() {
	m.killing = true
	for _, g := range m.gors {
		if g.id == 0 || g.done {
			if g.dead != nil {
				<-g.dead
			}
			continue
		}
		m.cur = g
		g.resume <- struct{}{}
		<-g.dead
	}
	m.killing = false
	m.gors = nil
	m.cur = nil
	m.abort = nil
}

func (m *M) mu(v Value) *mutexState {
	p, ok := v.(*Value)
	if !ok || p == nil {
		m.nilDeref()
	}
	s := m.mutexes[p]
	if s == nil {
		s = &mutexState{}
		m.mutexes[p] = s
	}
	return s
}

func (m *M) lock(v Value, write bool) {
	m.impure()
	s := m.mu(v)
	m.yieldPoint()
	m.block(func() bool { return !s.w && (!write || s.readers == 0) }, "mutex")
	if write {
		s.w = true
	} else {
		s.readers++
	}
}

func (m *M) tryLock(v Value) bool {
	m.impure()
	s := m.mu(v)
	if s.w || s.readers > 0 {
		return false
	}
	s.w = true
	return true
}

func (m *M) unlock(v Value, write bool) {
	m.impure()
	s := m.mu(v)
	if write && !s.w || !write && s.readers == 0 {
		panic(goPanic{where: "fatal error: unlock of unlocked mutex @ " + m.whereAmI(), fatal: true})
	}
	if write {
		s.w = false
	} else {
		s.readers--
	}
	m.yieldPoint()
}

func (m *M) wg(v Value) *int64 {
	p, ok := v.(*Value)
	if !ok || p == nil {
		m.nilDeref()
	}
	n := m.wgs[p]
	if n == nil {
		n = new(int64)
		m.wgs[p] = n
	}
	return n
}

func (m *M) wgAdd(v Value, d int64) {
	m.impure()
	n := m.wg(v)
	m.yieldPoint()
	*n += d
	if *n < 0 {
		m.goPanicRT("sync: negative WaitGroup counter")
	}
}

func (m *M) wgWait(v Value) {
	n := m.wg(v)
	m.yieldPoint()
	m.block(func() bool { return *n == 0 }, "WaitGroup.Wait")
}

// Channels: buffered values plus a rendezvous slot for unbuffered channels.
func (m *M) chanSend(ch *ChanV, v Value) {
	m.yieldPoint()
	if ch == nil {
		m.block(func() bool { return false }, "send on nil channel")
	}
	if ch.closed {
		m.goPanicRT("send on closed channel")
	}
	if ch.cap == 0 {
		m.block(func() bool { return ch.closed || len(ch.buf) == 0 && ch.waiting > 0 }, "chan send")
	} else {
		m.block(func() bool { return ch.closed || len(ch.buf) < ch.cap }, "chan send")
	}
	if ch.closed {
		m.goPanicRT("send on closed channel")
	}
	ch.buf = append(append([]Value{}, ch.buf...), v)
}

func (m *M) chanRecv(ch *ChanV, elem types.Type) (Value, bool) {
	m.yieldPoint()
	if ch == nil {
		m.block(func() bool { return false }, "receive from nil channel")
	}
	ch.waiting++
	m.block(func() bool { return len(ch.buf) > 0 || ch.closed }, "chan receive")
	ch.waiting--
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		return v, true
	}
	return m.zero(elem), false
}

func (m *M) chanClose(ch *ChanV) {
	if ch == nil {
		m.goPanicRT("close of nil channel")
	}
	if ch.closed {
		m.goPanicRT("close of closed channel")
	}
	ch.closed = true
	m.yieldPoint()
}

func (m *M) selectStmt(fr *frame, x *ssa.Select, p *pinstr) Value {
	m.yieldPoint()
	n := len(x.States)
	chs := make([]*ChanV, n)
	snd := make([]Value, n)
	for i := range x.States {
		chs[i], _ = m.get(fr, &p.ops[2*i]).(*ChanV)
		if x.States[i].Dir == types.SendOnly {
			snd[i] = m.copyVal(m.get(fr, &p.ops[2*i+1]))
		}
	}
	readyList := func() []int {
		var l []int
		for i := range chs {
			c := chs[i]
			if c == nil {
				continue
			}
			if x.States[i].Dir == types.SendOnly {
				if c.closed || c.cap > 0 && len(c.buf) < c.cap || c.cap == 0 && c.waiting > 0 && len(c.buf) == 0 {
					l = append(l, i)
				}
			} else if len(c.buf) > 0 || c.closed {
				l = append(l, i)
			}
		}
		return l
	}
	l := readyList()
	if len(l) == 0 {
		if !x.Blocking {
			return m.selResult(x, -1, nil, false)
		}
		for i := range chs {
			if chs[i] != nil && x.States[i].Dir != types.SendOnly {
				chs[i].waiting++
			}
		}
		m.block(func() bool { return len(readyList()) > 0 }, "select")
		for i := range chs {
			if chs[i] != nil && x.States[i].Dir != types.SendOnly {
				chs[i].waiting--
			}
		}
		l = readyList()
	}
	i := l[0]
	if len(l) > 1 {
		i = l[m.choose(len(l))]
	}
	c := chs[i]
	if x.States[i].Dir == types.SendOnly {
		if c.closed {
			m.goPanicRT("send on closed channel")
		}
		c.buf = append(append([]Value{}, c.buf...), snd[i])
		return m.selResult(x, i, nil, false)
	}
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		return m.selResult(x, i, v, true)
	}
	return m.selResult(x, i, nil, false)
}

func (m *M) selResult(x *ssa.Select, i int, v Value, ok bool) Value {
	r := Tuple{m.c.Int(int64(i)), m.c.Bool(ok)}
	for k, s := range x.States {
		if s.Dir == types.SendOnly {
			continue
		}
		if k == i && v != nil {
			r = append(r, v)
		} else {
			r = append(r, m.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	return r
}
