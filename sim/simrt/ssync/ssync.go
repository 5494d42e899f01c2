// Package sync is the simulation-aware replacement of the standard package:
// blocking is a scheduling decision, pools return any pooled object or none,
// and every operation is a possible preemption point. The happens-before
// edges of the real operations are reported to the race detector.
package sync

import (
	"hash/maphash"
	"unsafe"

	"simrt"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	locked bool
	_      [7]byte
}

func (m *Mutex) p() unsafe.Pointer { return unsafe.Pointer(m) }

func (m *Mutex) Lock() {
	simrt.Y(0)
	for m.locked {
		simrt.Block(m.p())
	}
	m.locked = true
	simrt.Acquire(m.p())
}

func (m *Mutex) TryLock() bool {
	simrt.Y(0)
	if m.locked {
		return false
	}
	m.locked = true
	simrt.Acquire(m.p())
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	simrt.Release(m.p())
	m.locked = false
	simrt.Wake(m.p())
	simrt.Y(0)
}

// RWMutex, as the real one, lets no new reader in once a writer waits, and
// lets the readers that have waited in when a writer leaves.
type RWMutex struct {
	w       bool // a writer holds the lock or waits for the readers to leave
	held    bool
	readers int
	waiting int // readers that wait for the writer to leave
	gen     int
	rel     int64
}

func (m *RWMutex) p() unsafe.Pointer { return unsafe.Pointer(m) }

func (m *RWMutex) Lock() {
	simrt.Y(0)
	for m.w {
		simrt.Block(m.p())
	}
	m.w = true
	for m.readers > 0 {
		simrt.Block(m.p())
	}
	m.held = true
	simrt.Acquire(m.p())
	simrt.Acquire(unsafe.Pointer(&m.rel))
}

func (m *RWMutex) TryLock() bool {
	simrt.Y(0)
	if m.w || m.readers > 0 {
		return false
	}
	m.w, m.held = true, true
	simrt.Acquire(m.p())
	simrt.Acquire(unsafe.Pointer(&m.rel))
	return true
}

func (m *RWMutex) Unlock() {
	if !m.held {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	simrt.Release(m.p())
	m.readers += m.waiting
	m.waiting = 0
	m.gen++
	m.w, m.held = false, false
	simrt.Wake(m.p())
	simrt.Y(0)
}

func (m *RWMutex) RLock() {
	simrt.Y(0)
	if m.w {
		m.waiting++
		for g := m.gen; m.gen == g; {
			simrt.Block(m.p())
		}
	} else {
		m.readers++
	}
	simrt.Acquire(m.p())
}

func (m *RWMutex) TryRLock() bool {
	simrt.Y(0)
	if m.w {
		return false
	}
	m.readers++
	simrt.Acquire(m.p())
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	simrt.Release(unsafe.Pointer(&m.rel))
	m.readers--
	simrt.Wake(m.p())
	simrt.Y(0)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	simrt.Y(0)
	if o.done {
		simrt.Acquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			simrt.Release(unsafe.Pointer(o))
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p interface{}
	return func() {
		once.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	o := OnceFunc(func() { r = f() })
	return func() T { o(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	o := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { o(); return r1, r2 }
}

// without removes element i. Done by hand: the runtime's slice copies would be
// recorded by the race detector even here.
func without[T any](list []T, i int) []T {
	ret := make([]T, len(list)-1, len(list)+4)
	for k := range ret {
		if k < i {
			ret[k] = list[k]
		} else {
			ret[k] = list[k+1]
		}
	}
	return ret
}

// with appends an element, likewise.
func with[T any](list []T, x T) []T {
	if len(list) < cap(list) {
		list = list[:len(list)+1]
		list[len(list)-1] = x
		return list
	}
	ret := make([]T, len(list)+1, 2*len(list)+4)
	for k := range list {
		ret[k] = list[k]
	}
	ret[len(list)] = x
	return ret
}

type Pool struct {
	New   func() any
	items []any
	sync  int64
}

func (p *Pool) Get() any {
	simrt.Y(0)
	simrt.NotePoolGet()
	if n := len(p.items); n > 0 {
		// 0: the last one put; otherwise another one, or none
		k := int(simrt.Draw(simrt.StreamPool, uint64(n)+1))
		if k < n {
			i := n - 1 - k
			x := p.items[i]
			p.items = without(p.items, i)
			simrt.Acquire(unsafe.Pointer(&p.sync))
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simrt.Y(0)
	simrt.Release(unsafe.Pointer(&p.sync))
	p.items = with(p.items, x)
	simrt.Y(0)
}

type entry struct {
	k, v any
	sync int64
}

// table is a hash table of its own: the operations of Go maps would be
// recorded by the race detector even here.
type table struct {
	buckets [][]*entry
	n       int
}

var hashSeed = maphash.MakeSeed()

func (t *table) get(key any) *entry {
	if len(t.buckets) == 0 {
		return nil
	}
	for _, e := range t.buckets[maphash.Comparable(hashSeed, key)%uint64(len(t.buckets))] {
		if e.k == key {
			return e
		}
	}
	return nil
}

func (t *table) put(e *entry) {
	if t.n >= len(t.buckets) {
		old := t.buckets
		t.buckets = make([][]*entry, 2*len(old)+8)
		t.n = 0
		for _, b := range old {
			for _, x := range b {
				t.put(x)
			}
		}
	}
	h := maphash.Comparable(hashSeed, e.k) % uint64(len(t.buckets))
	t.buckets[h] = with(t.buckets[h], e)
	t.n++
}

func (t *table) del(key any) {
	h := maphash.Comparable(hashSeed, key) % uint64(len(t.buckets))
	for i, e := range t.buckets[h] {
		if e.k == key {
			t.buckets[h] = without(t.buckets[h], i)
			t.n--
			return
		}
	}
}

type Map struct {
	m    table
	keys []any // insertion order
}

func (m *Map) Load(key any) (any, bool) {
	simrt.Y(0)
	e := m.m.get(key)
	if e == nil {
		return nil, false
	}
	simrt.Acquire(unsafe.Pointer(&e.sync))
	return e.v, true
}

func (m *Map) set(key, value any) {
	e := m.m.get(key)
	if e == nil {
		e = &entry{k: key}
		m.m.put(e)
		m.keys = with(m.keys, key)
	}
	e.v = value
	simrt.Release(unsafe.Pointer(&e.sync))
}

func (m *Map) Store(key, value any) {
	simrt.Y(0)
	m.set(key, value)
	simrt.Y(0)
}

func (m *Map) LoadOrStore(key, value any) (any, bool) {
	simrt.Y(0)
	if e := m.m.get(key); e != nil {
		simrt.Acquire(unsafe.Pointer(&e.sync))
		return e.v, true
	}
	m.set(key, value)
	return value, false
}

func (m *Map) LoadAndDelete(key any) (any, bool) {
	simrt.Y(0)
	e := m.m.get(key)
	if e == nil {
		return nil, false
	}
	simrt.Acquire(unsafe.Pointer(&e.sync))
	m.m.del(key)
	for i, k := range m.keys {
		if k == key {
			m.keys = without(m.keys, i)
			break
		}
	}
	return e.v, true
}

func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

func (m *Map) Swap(key, value any) (any, bool) {
	simrt.Y(0)
	e := m.m.get(key)
	var old any
	if e != nil {
		simrt.Acquire(unsafe.Pointer(&e.sync))
		old = e.v
	}
	m.set(key, value)
	return old, e != nil
}

func (m *Map) CompareAndSwap(key, old, new any) bool {
	simrt.Y(0)
	e := m.m.get(key)
	if e == nil || e.v != old {
		return false
	}
	simrt.Acquire(unsafe.Pointer(&e.sync))
	m.set(key, new)
	return true
}

func (m *Map) CompareAndDelete(key, old any) bool {
	simrt.Y(0)
	e := m.m.get(key)
	if e == nil || e.v != old {
		return false
	}
	m.LoadAndDelete(key)
	return true
}

func (m *Map) Clear() {
	simrt.Y(0)
	m.m, m.keys = table{}, nil
}

func (m *Map) Range(f func(key, value any) bool) {
	keys := make([]any, len(m.keys))
	for i := range keys {
		keys[i] = m.keys[i]
	}
	for i := len(keys) - 1; i > 0; i-- {
		j := i - int(simrt.Draw(simrt.StreamMap, uint64(i+1)))
		keys[i], keys[j] = keys[j], keys[i]
	}
	for _, k := range keys {
		simrt.Y(0)
		e := m.m.get(k)
		if e == nil {
			continue
		}
		simrt.Acquire(unsafe.Pointer(&e.sync))
		if !f(k, e.v) {
			return
		}
	}
}

type WaitGroup struct {
	n    int
	sync int64
}

func (w *WaitGroup) Add(d int) {
	simrt.Y(0)
	if d < 0 {
		simrt.Release(unsafe.Pointer(&w.sync))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		simrt.Wake(unsafe.Pointer(w))
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

func (w *WaitGroup) Wait() {
	simrt.Y(0)
	for w.n > 0 {
		simrt.Block(unsafe.Pointer(w))
	}
	simrt.Acquire(unsafe.Pointer(&w.sync))
}

type Cond struct {
	L   Locker
	gen *int64
}

func NewCond(l Locker) *Cond { return &Cond{L: l, gen: new(int64)} }

func (c *Cond) Wait() {
	p := unsafe.Pointer(c.gen)
	c.L.Unlock()
	simrt.Block(p)
	c.L.Lock()
}

func (c *Cond) Signal()    { simrt.Wake(unsafe.Pointer(c.gen)) }
func (c *Cond) Broadcast() { simrt.Wake(unsafe.Pointer(c.gen)) }
