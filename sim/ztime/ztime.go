// Package ztime stands in for the parts of package time that wait or look at
// a clock.
package ztime

import (
	"time"

	"github.com/bwesterb/go-xmssmt/zsim/zrt"
)

func Now() time.Time                  { return time.Unix(1700000000, 0).Add(time.Duration(zrt.Now())).UTC() }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { zrt.Sleep(int64(d)) }

type Timer struct {
	C    *zrt.Chan[time.Time]
	f    func()
	live *bool
}

type Ticker struct {
	C    *zrt.Chan[time.Time]
	live *bool
}

func start(d time.Duration, f func()) *bool {
	live := true
	zrt.Go(func() {
		zrt.Sleep(int64(d))
		if live {
			live = false
			f()
		}
	})
	return &live
}

func NewTimer(d time.Duration) *Timer {
	t := &Timer{C: zrt.MakeChan[time.Time](1)}
	t.f = func() {
		if zrt.LenChan(t.C) == 0 {
			zrt.Send(t.C, Now())
		}
	}
	t.live = start(d, t.f)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.live = start(d, f)
	return t
}

func (t *Timer) Stop() bool {
	was := *t.live
	*t.live = false
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.live = start(d, t.f)
	return was
}

func After(d time.Duration) *zrt.Chan[time.Time] { return NewTimer(d).C }

func NewTicker(d time.Duration) *Ticker {
	live := true
	t := &Ticker{C: zrt.MakeChan[time.Time](1), live: &live}
	zrt.Go(func() {
		for live {
			zrt.Sleep(int64(d))
			if live && zrt.LenChan(t.C) == 0 {
				zrt.Send(t.C, Now())
			}
		}
	})
	return t
}

func (t *Ticker) Stop()                         { *t.live = false }
func Tick(d time.Duration) *zrt.Chan[time.Time] { return NewTicker(d).C }
