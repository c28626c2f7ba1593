// Package stime stands in for the parts of package time that read the clock or wait.
package stime

import (
	"time"

	"ecksbee.com/telefacts/vsim"
)

func Now() time.Time                         { return time.Unix(0, vsim.NowNanos()) }
func Since(t time.Time) time.Duration        { return Now().Sub(t) }
func Until(t time.Time) time.Duration        { return t.Sub(Now()) }
func Sleep(d time.Duration)                  { vsim.Sleep(int64(d)) }
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func Tick(d time.Duration) <-chan time.Time  { return NewTicker(d).C }

type Timer struct {
	C <-chan time.Time
	t *vsim.Timer
}

func NewTimer(d time.Duration) *Timer {
	ch := vsim.MakeChan[time.Time](1)
	tm := vsim.NewTimer(ch, 0, nil)
	tm.Start(int64(d))
	return &Timer{C: ch, t: tm}
}

func AfterFunc(d time.Duration, f func()) *Timer {
	tm := vsim.NewTimer[time.Time](nil, 0, f)
	tm.Start(int64(d))
	return &Timer{t: tm}
}

func (t *Timer) Stop() bool { return t.t.Stop() }
func (t *Timer) Reset(d time.Duration) bool {
	was := t.t.Stop()
	t.t.Start(int64(d))
	return was
}

type Ticker struct {
	C <-chan time.Time
	t *vsim.Timer
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := vsim.MakeChan[time.Time](1)
	tm := vsim.NewTimer(ch, int64(d), nil)
	tm.Start(int64(d))
	return &Ticker{C: ch, t: tm}
}

func (t *Ticker) Stop()                 { t.t.Stop() }
func (t *Ticker) Reset(d time.Duration) { t.t.Stop(); t.t.Start(int64(d)) }
