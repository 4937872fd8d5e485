package zrt

import (
	"reflect"
	"unsafe"
)

// Chan replaces Go channels in rewritten code.
type Chan[T any] struct {
	buf    []T
	cap    int
	closed bool
	sendq  []*sendItem[T]
	recvW  int // tasks waiting to receive
}

type sendItem[T any] struct {
	v     T
	taken bool
}

func MakeChan[T any](n int) *Chan[T] { return &Chan[T]{cap: n} }

func (c *Chan[T]) p() unsafe.Pointer { return unsafe.Pointer(c) }

func never() {
	for {
		var x byte
		Block(unsafe.Pointer(&x), "nil channel")
	}
}

func CloseChan[T any](c *Chan[T]) {
	SyncPoint()
	CheckKilled()
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	RaceReleaseMerge(c.p())
	Wake(c.p(), true)
}

func LenChan[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}
	return len(c.buf)
}

func CapChan[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}
	return c.cap
}

func Send[T any](c *Chan[T], v T) {
	SyncPoint()
	CheckKilled()
	if c == nil {
		never()
	}
	for {
		if c.closed {
			panic("send on closed channel")
		}
		if len(c.buf) < c.cap {
			c.buf = append(c.buf, v)
			RaceReleaseMerge(c.p())
			Wake(c.p(), true)
			return
		}
		if c.cap == 0 {
			it := &sendItem[T]{v: v}
			c.sendq = append(c.sendq, it)
			RaceReleaseMerge(c.p())
			Wake(c.p(), true)
			for !it.taken {
				Block(c.p(), "chan send")
				if c.closed && !it.taken {
					panic("send on closed channel")
				}
			}
			RaceAcquire(c.p())
			return
		}
		Block(c.p(), "chan send")
	}
}

func (c *Chan[T]) tryRecv() (v T, ok, done bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = append([]T(nil), c.buf[1:]...)
		RaceAcquire(c.p())
		RaceReleaseMerge(c.p())
		Wake(c.p(), true)
		return v, true, true
	}
	if len(c.sendq) > 0 {
		it := c.sendq[0]
		c.sendq = c.sendq[1:]
		it.taken = true
		RaceAcquire(c.p())
		RaceReleaseMerge(c.p())
		Wake(c.p(), true)
		return it.v, true, true
	}
	if c.closed {
		RaceAcquire(c.p())
		return v, false, true
	}
	return v, false, false
}

func Recv[T any](c *Chan[T]) T {
	v, _ := Recv2(c)
	return v
}

func Recv2[T any](c *Chan[T]) (T, bool) {
	SyncPoint()
	CheckKilled()
	if c == nil {
		never()
	}
	for {
		if v, ok, done := c.tryRecv(); done {
			return v, ok
		}
		c.recvW++
		Block(c.p(), "chan receive")
		c.recvW--
	}
}

// Case is one case of a select statement.
type Case struct {
	ptr   unsafe.Pointer
	try   func() (interface{}, bool, bool)
	enter func(d int)
}

func SendCase[T any](c *Chan[T], v T) Case {
	if c == nil {
		return Case{}
	}
	return Case{ptr: c.p(), enter: func(int) {}, try: func() (interface{}, bool, bool) {
		if c.closed {
			panic("send on closed channel")
		}
		if len(c.buf) < c.cap {
			c.buf = append(c.buf, v)
		} else if c.cap == 0 && c.recvW > len(c.sendq) {
			c.sendq = append(c.sendq, &sendItem[T]{v: v})
		} else {
			return nil, false, false
		}
		RaceReleaseMerge(c.p())
		Wake(c.p(), true)
		return nil, false, true
	}}
}

func RecvCase[T any](c *Chan[T]) Case {
	if c == nil {
		return Case{}
	}
	return Case{ptr: c.p(), enter: func(d int) { c.recvW += d }, try: func() (interface{}, bool, bool) {
		v, ok, done := c.tryRecv()
		return v, ok, done
	}}
}

// As converts a received value to the channel's element type.
func As[T any](c *Chan[T], v interface{}) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

func Select(hasDefault bool, cases ...Case) (int, interface{}, bool) {
	SyncPoint()
	CheckKilled()
	for {
		order := make([]int, len(cases))
		for i := range order {
			order[i] = i
		}
		for i := len(order) - 1; i > 0; i-- {
			j := S.misc.Intn(i + 1)
			order[i], order[j] = order[j], order[i]
		}
		for _, i := range order {
			if cases[i].try == nil {
				continue
			}
			if v, ok, done := cases[i].try(); done {
				return i, v, ok
			}
		}
		if hasDefault {
			return -1, nil, false
		}
		for _, c := range cases {
			if c.enter != nil {
				c.enter(1)
				Wake(c.ptr, true) // senders may now find a receiver
			}
		}
		BlockAny(cases)
		for _, c := range cases {
			if c.enter != nil {
				c.enter(-1)
			}
		}
	}
}

// BlockAny parks the task until something happens on one of the channels.
// Select is rare, so it simply polls through the scheduler: the task sleeps
// for a moment of simulated time whenever no case is ready.
func BlockAny(cases []Case) {
	n := 0
	for _, c := range cases {
		if c.ptr != nil {
			n++
		}
	}
	if n == 0 {
		never()
	}
	if n == 1 {
		for _, c := range cases {
			if c.ptr != nil {
				Block(c.ptr, "select")
			}
		}
		return
	}
	Sleep(1000)
}

var _ = reflect.ValueOf
