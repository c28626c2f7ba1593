// Package ssignal stands in for os/signal: the simulator delivers the signals.
package ssignal

import (
	"context"
	"os"

	"ecksbee.com/telefacts/vsim"
	"ecksbee.com/telefacts/vsim/scontext"
)

// Wanted lists the signals of each Notify call; it is read by the driver after the run.
func Notify(c chan<- os.Signal, sig ...os.Signal) {
	for _, s := range sig {
		if s == os.Interrupt {
			vsim.NotifyChan(c)
			return
		}
	}
	if len(sig) == 0 {
		vsim.NotifyChan(c)
	}
}

func Stop(c chan<- os.Signal) {}
func Reset(sig ...os.Signal)  {}
func Ignore(sig ...os.Signal) {}

func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := scontext.WithCancel(parent)
	ch := vsim.MakeChan[os.Signal](1)
	Notify(ch, sig...)
	vsim.Go("signal.NotifyContext", func() {
		if s := vsim.Select(false, vsim.CaseRecv((<-chan os.Signal)(ch)), vsim.CaseRecv(ctx.Done())); s.Idx == 0 {
			cancel()
		}
	})
	return ctx, cancel
}
