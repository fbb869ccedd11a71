package main

import (
	"fmt"

	"github.com/recolude/rap/format"
)

// foreign is a collection of a kind the repository does not know.
type foreign struct {
	k, nm string
	caps  []Cap
}
type foreignCap struct{ t, v float64 }

func (c foreignCap) Time() float64  { return c.t }
func (c foreignCap) String() string { return fmt.Sprint(c.t, c.v) }

func newForeign(c Col) format.CaptureCollection { return foreign{c.K, unhx(c.Nm), c.Caps} }

func (f foreign) Name() string      { return f.nm }
func (f foreign) Signature() string { return f.k }
func (f foreign) Captures() []format.Capture {
	out := make([]format.Capture, len(f.caps))
	for i := range f.caps {
		out[i] = f.CaptureAt(i)
	}
	return out
}
func (f foreign) Slice(b, e float64) format.CaptureCollection {
	out := foreign{f.k, f.nm, nil}
	for i := range f.caps {
		if format.CaptureFallsWithin(f.CaptureAt(i), b, e) {
			out.caps = append(out.caps, f.caps[i])
		}
	}
	return out
}
func (f foreign) Start() float64 { return f.CaptureAt(0).Time() }
func (f foreign) End() float64   { return f.CaptureAt(len(f.caps) - 1).Time() }
func (f foreign) Length() int    { return len(f.caps) }
func (f foreign) CaptureAt(i int) format.Capture {
	c := f.caps[i]
	v := 0.0
	if len(c.V) > 0 {
		v = c.V[0].f64()
	}
	return foreignCap{c.T.f64(), v}
}
