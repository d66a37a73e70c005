package signal

import (
	"context"
	"os"

	"github.com/pandatix/go-abnf/zsim/simrt"
	"github.com/pandatix/go-abnf/zsim/simrt/world"
)

func Notify(c chan<- os.Signal, sig ...os.Signal) { world.Notify(c, sig...) }
func Stop(c chan<- os.Signal)                     { world.StopNotify(c) }
func Ignore(sig ...os.Signal)                     { world.Notify(make(chan os.Signal, 64), sig...) }
func Reset(sig ...os.Signal)                      {}
func Ignored(os.Signal) bool                      { return false }
func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	world.Notify(ch, sigs...)
	simrt.Go(func() {
		i, _, _ := simrt.Select(false, simrt.RecvCase(ch), simrt.RecvCase(ctx.Done()))
		if i == 0 {
			cancel()
		}
	})
	return ctx, func() { cancel(); world.StopNotify(ch) }
}
