// Package time replaces the standard time in the code under test: the clock is the simulator's.
package time

import (
	std "time"
	_ "time/tzdata" // the zones of the workers

	"verifsim/rt"
)

func Now() Time {
	rt.YS(40)
	n := rt.ClockNow()
	return std.Unix(n/1_000_000_000, n%1_000_000_000)
}
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { rt.Sleep(int64(d)) }
func After(d Duration) <-chan Time {
	c := make(chan Time, 1)
	rt.Sleep(int64(d))
	c <- Now()
	return c
}
