package standin

import (
	"bytes"
	"encoding/binary"
	"io"
	"net"
	"sync"
)

// AMQP is a broker with a default exchange: every message goes to the queue its routing key names.
// A queue gives its messages to its consumers in turn, as RabbitMQ does.
type AMQP struct {
	*Listener
	mu     sync.Mutex
	queues map[string]*queue
	tag    uint64
}

type message struct{ header, body []byte }

type queue struct {
	msgs      []message
	consumers []*consumer
	next      int
}

type consumer struct {
	s       *session
	ch      uint16
	tag     string
	auto    bool
	limit   int
	unacked int
	q       *queue
}

type session struct {
	a    *AMQP
	c    net.Conn
	mu   sync.Mutex
	chs  map[uint16]*channel
	name string
	tags int
}

type channel struct {
	prefetch int
	confirm  bool
	seq      uint64
	unacked  map[uint64]*pending
	to       string
	header   []byte
	body     []byte
	size     uint64
}

type pending struct {
	q *queue
	c *consumer
	m message
}

func Broker() (*AMQP, error) {
	a := &AMQP{queues: map[string]*queue{}}
	l, err := listen(a.serve)
	a.Listener = l
	return a, err
}

func short(s string) []byte { return append([]byte{byte(len(s))}, s...) }
func long(s string) []byte {
	return append(binary.BigEndian.AppendUint32(nil, uint32(len(s))), s...)
}
func u16(n int) []byte    { return binary.BigEndian.AppendUint16(nil, uint16(n)) }
func u32(n int) []byte    { return binary.BigEndian.AppendUint32(nil, uint32(n)) }
func u64(n uint64) []byte { return binary.BigEndian.AppendUint64(nil, n) }

func (s *session) frame(kind byte, ch uint16, parts ...[]byte) {
	p := bytes.Join(parts, nil)
	f := append([]byte{kind}, u16(int(ch))...)
	f = append(f, u32(len(p))...)
	f = append(f, p...)
	f = append(f, 0xCE)
	s.mu.Lock()
	s.c.Write(f)
	s.mu.Unlock()
}

func (s *session) method(ch uint16, class, id int, parts ...[]byte) {
	s.frame(1, ch, append([][]byte{u16(class), u16(id)}, parts...)...)
}

// content sends a method with a message.
func (s *session) content(ch uint16, class, id int, m message, parts ...[]byte) {
	s.method(ch, class, id, parts...)
	s.frame(2, ch, m.header)
	if len(m.body) > 0 {
		s.frame(3, ch, m.body)
	}
}

type args struct{ b []byte }

func (a *args) take(n int) []byte {
	if n > len(a.b) {
		n = len(a.b)
	}
	r := a.b[:n]
	a.b = a.b[n:]
	return r
}
func (a *args) octet() int {
	if r := a.take(1); len(r) == 1 {
		return int(r[0])
	}
	return 0
}
func (a *args) u16() int {
	if r := a.take(2); len(r) == 2 {
		return int(binary.BigEndian.Uint16(r))
	}
	return 0
}
func (a *args) u64() uint64 {
	if r := a.take(8); len(r) == 8 {
		return binary.BigEndian.Uint64(r)
	}
	return 0
}
func (a *args) short() string { return string(a.take(a.octet())) }

func (a *AMQP) serve(c net.Conn) {
	head := make([]byte, 8)
	if _, err := io.ReadFull(c, head); err != nil || string(head[:4]) != "AMQP" {
		return
	}
	s := &session{a: a, c: c, chs: map[uint16]*channel{}}
	defer s.gone()
	s.method(0, 10, 10, []byte{0, 9}, u32(0), long("PLAIN"), long("en_US"))
	for {
		h := make([]byte, 7)
		if _, err := io.ReadFull(c, h); err != nil {
			return
		}
		p := make([]byte, int(binary.BigEndian.Uint32(h[3:]))+1)
		if _, err := io.ReadFull(c, p); err != nil || p[len(p)-1] != 0xCE {
			return
		}
		ch := binary.BigEndian.Uint16(h[1:])
		p = p[:len(p)-1]
		switch h[0] {
		case 1:
			if !s.handle(ch, &args{p}) {
				return
			}
		case 2:
			k := s.chs[ch]
			if k == nil || len(p) < 12 {
				return
			}
			k.header, k.body, k.size = p, nil, binary.BigEndian.Uint64(p[4:])
			s.complete(ch, k)
		case 3:
			k := s.chs[ch]
			if k == nil {
				return
			}
			k.body = append(k.body, p...)
			s.complete(ch, k)
		}
	}
}

func (s *session) complete(ch uint16, k *channel) {
	if uint64(len(k.body)) < k.size {
		return
	}
	s.a.mu.Lock()
	if q := s.a.queues[k.to]; q != nil {
		q.msgs = append(q.msgs, message{k.header, k.body})
		s.a.deliver(q)
	}
	s.a.mu.Unlock()
	if k.confirm {
		k.seq++
		s.method(ch, 60, 80, u64(k.seq), []byte{0})
	}
}

// deliver hands out what there is, to each consumer in turn.
func (a *AMQP) deliver(q *queue) {
	for len(q.msgs) > 0 && len(q.consumers) > 0 {
		var c *consumer
		for range q.consumers {
			q.next = (q.next + 1) % len(q.consumers)
			if k := q.consumers[q.next]; k.auto || k.limit == 0 || k.unacked < k.limit {
				c = k
				break
			}
		}
		if c == nil {
			return
		}
		m := q.msgs[0]
		q.msgs = q.msgs[1:]
		a.tag++
		if !c.auto {
			c.unacked++
			c.s.chs[c.ch].unacked[a.tag] = &pending{q, c, m}
		}
		c.s.content(c.ch, 60, 60, m, short(c.tag), u64(a.tag), []byte{0}, short(""), short(""))
	}
}

func (s *session) settle(k *channel, tag uint64, multiple, requeue bool) {
	for t, p := range k.unacked {
		if t == tag || multiple && (tag == 0 || t < tag) {
			delete(k.unacked, t)
			if p.c != nil {
				p.c.unacked--
			}
			if requeue {
				p.q.msgs = append([]message{p.m}, p.q.msgs...)
			}
			s.a.deliver(p.q)
		}
	}
}

func (a *AMQP) drop(which func(*consumer) bool) {
	for _, q := range a.queues {
		var rest []*consumer
		for _, c := range q.consumers {
			if !which(c) {
				rest = append(rest, c)
			}
		}
		q.consumers = rest
	}
}

func (s *session) gone() {
	s.a.mu.Lock()
	defer s.a.mu.Unlock()
	s.a.drop(func(c *consumer) bool { return c.s == s })
	for _, k := range s.chs {
		s.settle(k, 0, true, true)
	}
}

func (s *session) handle(ch uint16, a *args) bool {
	class, id := a.u16(), a.u16()
	s.a.mu.Lock()
	defer s.a.mu.Unlock()
	k := s.chs[ch]
	if class != 10 && k == nil && !(class == 20 && id == 10) {
		return false
	}
	switch class*1000 + id {
	case 10011: // start-ok
		s.method(0, 10, 30, u16(2047), u32(131072), u16(0))
	case 10031: // tune-ok
	case 10040:
		s.method(0, 10, 41, short(""))
	case 10050:
		s.method(0, 10, 51)
		return false
	case 10051:
		return false
	case 20010:
		s.chs[ch] = &channel{unacked: map[uint64]*pending{}}
		s.method(ch, 20, 11, long(""))
	case 20040:
		s.a.drop(func(c *consumer) bool { return c.s == s && c.ch == ch })
		s.settle(k, 0, true, true)
		delete(s.chs, ch)
		s.method(ch, 20, 41)
	case 20041:
	case 50010:
		a.u16()
		name := a.short()
		bits := a.octet()
		q := s.a.queues[name]
		if q == nil {
			q = &queue{}
			s.a.queues[name] = q
		}
		if bits&16 == 0 {
			s.method(ch, 50, 11, short(name), u32(len(q.msgs)), u32(len(q.consumers)))
		}
	case 60010:
		a.take(4)
		k.prefetch = a.u16()
		s.method(ch, 60, 11)
	case 60020:
		a.u16()
		q := s.a.queues[a.short()]
		tag := a.short()
		bits := a.octet()
		if q == nil {
			return false
		}
		if tag == "" {
			s.tags++
			tag = string(rune('a'+s.tags%26)) + "-tag"
		}
		if bits&8 == 0 {
			s.method(ch, 60, 21, short(tag))
		}
		q.consumers = append(q.consumers, &consumer{s: s, ch: ch, tag: tag, auto: bits&2 != 0, limit: k.prefetch, q: q})
		s.a.deliver(q)
	case 60030:
		tag := a.short()
		s.a.drop(func(c *consumer) bool { return c.s == s && c.ch == ch && c.tag == tag })
		if a.octet()&1 == 0 {
			s.method(ch, 60, 31, short(tag))
		}
	case 60040:
		a.u16()
		a.short()
		k.to = a.short()
	case 60070:
		a.u16()
		q := s.a.queues[a.short()]
		bits := a.octet()
		if q == nil {
			return false
		}
		if len(q.msgs) == 0 {
			s.method(ch, 60, 72, short(""))
			break
		}
		m := q.msgs[0]
		q.msgs = q.msgs[1:]
		s.a.tag++
		if bits&1 == 0 {
			k.unacked[s.a.tag] = &pending{q, nil, m}
		}
		s.content(ch, 60, 71, m, u64(s.a.tag), []byte{0}, short(""), short(""), u32(len(q.msgs)))
	case 60080:
		tag := a.u64()
		s.settle(k, tag, a.octet()&1 != 0, false)
	case 60090:
		tag := a.u64()
		s.settle(k, tag, false, a.octet()&1 != 0)
	case 60120:
		tag := a.u64()
		bits := a.octet()
		s.settle(k, tag, bits&1 != 0, bits&2 != 0)
	case 85010:
		k.confirm = true
		s.method(ch, 85, 11)
	default:
		return false
	}
	return true
}
