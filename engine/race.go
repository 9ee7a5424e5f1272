package main

// Two callbacks at the same time. The first is executed under a monitor: a write to memory that existed before (so the
// other callback may reach it) without a lock is a race; after every synchronised write (atomic, unlock, pool) the second
// callback may run as a whole. The writes of callbacks that touch only memory of their own commute, so one order covers
// every interleaving.

type sched struct {
	g      V
	ran    bool // g has run or is running
	points int
	w      map[any]string // what the first callback wrote, and where
	locked map[any]bool
}

const schedPoints = 64

// shared and sharedWrite note a write to an object or a map; a race needs the second callback to touch the same one,
// at least one of the two without a lock.
func (m *M) shared(o *Obj) {
	if m.sched != nil && o.born < m.epoch {
		m.sharedWrite(o)
	}
}

func (m *M) sharedWrite(key any) {
	if m.inHarness() {
		return
	}
	s := m.sched
	if s.ran {
		m.sharedRead(key)
		return
	}
	if s.w == nil {
		s.w = map[any]string{}
		s.locked = map[any]bool{}
	}
	if _, ok := s.w[key]; !ok || m.locks == 0 {
		s.w[key] = m.where()
		s.locked[key] = m.locks > 0
	}
}

func (m *M) sharedRead(key any) {
	s := m.sched
	at, ok := s.w[key]
	if !ok || !s.ran || m.locks > 0 && s.locked[key] || m.inHarness() {
		return
	}
	if m.races == nil {
		m.races = map[string]bool{}
	}
	m.races[at] = true
}

// syncPoint comes after an operation on a lock, an atomic or a pool.
func (m *M) syncPoint(p V) {
	s := m.sched
	if s == nil || s.ran || m.locks > 0 {
		return
	}
	if o, ok := p.o.(*Obj); !ok || o.born >= m.epoch {
		return
	}
	if s.points++; s.points > schedPoints {
		return
	}
	if m.choose(2, "sched") == 1 {
		s.ran = true
		m.callValue(s.g, nil)
	}
}

func (m *M) race(f, g, ok V) V {
	m.epoch++
	m.sched = &sched{g: g}
	m.callValue(f, nil)
	if !m.sched.ran {
		m.sched.ran = true
		m.callValue(g, nil)
	}
	m.sched = nil
	m.epoch++
	r := m.callValue(ok, nil)
	m.check(m.strEq(m.str(r), &Str{}), m.str(r).s)
	return V{}
}
