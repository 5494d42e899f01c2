package main

import (
	"container/heap"

	"simrt"
)

// A byte stream over an unreliable packet network: packets are lost,
// duplicated, delayed and reordered, connections reset, receivers and senders
// crash and restart. Go-back-N with retransmission timers makes it reliable
// once faults stop. Time is virtual.

type ev struct {
	at  int64
	seq int
	f   func()
}

type evq []ev

func (q evq) Len() int { return len(q) }
func (q evq) Less(i, j int) bool {
	return q[i].at < q[j].at || (q[i].at == q[j].at && q[i].seq < q[j].seq)
}
func (q evq) Swap(i, j int)       { q[i], q[j] = q[j], q[i] }
func (q *evq) Push(x interface{}) { *q = append(*q, x.(ev)) }
func (q *evq) Pop() interface{} {
	o := *q
	x := o[len(o)-1]
	*q = o[:len(o)-1]
	return x
}

type Sim struct {
	r      *Run
	q      evq
	now    int64
	n      int
	faults int // faults that may still happen
	events int
}

func newSim(r *Run, faults int) *Sim { return &Sim{r: r, faults: faults} }

func (s *Sim) after(d int64, f func()) {
	s.n++
	heap.Push(&s.q, ev{s.now + d, s.n, f})
}

// fault decides whether a fault of this kind happens now.
func (s *Sim) fault(kind string, num, den int) bool {
	if s.faults <= 0 || !s.r.T.Fp(num, den) {
		return false
	}
	s.faults--
	s.r.Fault(kind)
	return true
}

// run processes events until none are left or max is reached.
func (s *Sim) run(max int) bool {
	start := s.now
	for len(s.q) > 0 {
		if s.events++; s.events > max {
			simrt.AddSim(s.now - start)
			return false
		}
		e := heap.Pop(&s.q).(ev)
		s.now = e.at
		e.f()
		if s.r.Failed() {
			break
		}
	}
	simrt.AddSim(s.now - start)
	return true
}

// Receiver is what a stream is delivered to.
type Receiver interface {
	// Data is called with everything received in order since Reset.
	Data(buf []byte, end bool)
	// Crash loses volatile state; it returns the durable position to resume at.
	Crash() int
}

const ms = int64(1_000_000)

// transfer sends data to rcv over a faulty connection, returns false if the
// simulation did not finish (never a fault of the code under test).
func transfer(r *Run, data []byte, nfaults int, rcv Receiver) bool {
	s := newSim(r, nfaults)
	t := r.T
	size := []int{4096, 1448, 1, 2, 3, 7, 16, 64, 256}[t.F(9)]
	if m := len(data)/120 + 1; size < m {
		size = m
	}
	varied := t.F(2) == 1
	epoch, base, recvd, acked := 0, 0, 0, 0
	buf := []byte{}
	var send func(e, off int)
	var pump func(e int)
	ended := false
	reset := func(at int) {
		epoch++
		base, recvd, acked = at, at, at
		buf = nil
		ended = false
		e := epoch
		s.after(5*ms, func() { pump(e) })
	}
	deliver := func(e, off int, d []byte) {
		if e != epoch {
			return // from before a reset
		}
		ack := func() {
			a := recvd
			if !s.fault("ack_lost", 1, 12) {
				s.after(1*ms+int64(t.F(20))*ms, func() {
					if e == epoch && a > acked {
						acked = a
						pump(e)
					}
				})
			}
		}
		if off != recvd {
			ack() // duplicate or out of order: say what is there
			return
		}
		buf = append(buf[:len(buf):len(buf)], d...)
		recvd += len(d)
		ended = recvd == len(data)
		rcv.Data(buf, ended)
		if r.Failed() {
			return
		}
		if s.fault("receiver_crash", 1, 16) {
			r.Log("t=%dms receiver crashes having %d bytes", s.now/ms, recvd)
			reset(rcv.Crash())
			return
		}
		if s.fault("connection_reset", 1, 24) {
			r.Log("t=%dms connection reset at %d", s.now/ms, recvd)
			reset(rcv.Crash())
			return
		}
		ack()
	}
	send = func(e, off int) {
		n := size
		if varied {
			n = 1 + t.F(size)
		}
		if off+n > len(data) {
			n = len(data) - off
		}
		d := append([]byte{}, data[off:off+n]...)
		copies := 1
		if s.fault("packet_lost", 1, 10) {
			copies = 0
		} else if s.fault("packet_duplicated", 1, 10) {
			copies = 2
		}
		for i := 0; i < copies; i++ {
			delay := 1 * ms
			if s.fault("packet_delayed", 1, 6) {
				delay += int64(t.F(200)) * ms
			}
			s.after(delay, func() { deliver(e, off, d) })
		}
	}
	// stop and wait with a timer; the window is one packet, or several sent ahead
	pump = func(e int) {
		if e != epoch || acked >= len(data) {
			return
		}
		off := acked
		send(e, off)
		s.after(40*ms, func() {
			if e == epoch && acked == off {
				r.Count("retransmit")
				pump(e)
			}
		})
	}
	_ = base
	if len(data) == 0 {
		rcv.Data(nil, true)
		return true
	}
	pump(epoch)
	return s.run(20000) && (recvd == len(data) || r.Failed())
}
