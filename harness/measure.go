package main

import "math"

// Measurements of the lossy techniques: errors and slacks of what was loaded
// against what was written, in units in which half a cell (or the floating
// point noise, where that is coarser) is a few hundred.

func f32of(x float64) float64 { return float64(float32(x)) }
func finite(xs ...float64) bool {
	for _, x := range xs {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return false
		}
	}
	return true
}

const clip = 1 << 27

// in units of u; anything not exactly zero with no unit at all is far off
func inUnits(x, u float64) int {
	if x == 0 {
		return 0
	}
	q := math.Inf(1)
	if u > 0 {
		q = math.Abs(x) / u
	}
	n := clip
	if q < clip {
		n = int(math.Round(q))
	}
	if x < 0 {
		return -n
	}
	return n
}

func unitFor(h, noise float64) float64 { return math.Max(h/256, noise/16) }

// measureSteps is for values stored as the differences between them, quantised
// over [lo, hi] with 2^bits cells.
func measureSteps(kind string, isTime bool, bits int, want, got []float64, zeroLo bool) E {
	n := len(want)
	if n < 2 || len(got) != n || !finite(want...) {
		return nil
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	big := 0.0
	for i, w := range want {
		big = math.Max(big, math.Abs(w))
		if i > 0 {
			d := w - want[i-1]
			lo, hi = math.Min(lo, d), math.Max(hi, d)
		}
	}
	if zeroLo {
		lo = 0
	}
	lo, hi = f32of(lo), f32of(hi)
	start := f32of(want[0])
	if !finite(lo, hi, start, hi-lo) {
		return nil
	}
	for _, g := range got {
		if finite(g) {
			big = math.Max(big, math.Abs(g))
		}
	}
	big = math.Max(big, math.Max(math.Abs(lo), math.Abs(hi)))
	h := (hi - lo) / math.Pow(2, float64(bits+1))
	noise := float64(n+8) * (4*math.Pow(2, -53)*big + math.Pow(2, -149))
	u := unitFor(h, noise)
	e := E{"op": "steps", "kind": kind, "time": isTime, "h": inUnits(h, u), "noise": inUnits(noise, u)}
	es, ls, hs := make([]int, n), make([]int, n), make([]int, n)
	back := 0
	for i := range want {
		if !finite(got[i]) {
			es[i] = clip
			continue
		}
		es[i] = inUnits((got[i]-want[i])-(start-want[0]), u)
		if i > 0 {
			d := want[i] - want[i-1]
			ls[i], hs[i] = inUnits(d-lo, u), inUnits(hi-d, u)
			if zeroLo && got[i] < got[i-1] {
				back++
			}
		}
	}
	e["e"], e["lo"], e["hi"], e["back"] = es, ls, hs, back
	return e
}

// measureCells is for values quantised one by one.
func measureCells(kind string, h, noise float64, errs []float64) E {
	u := unitFor(h, noise)
	es := make([]int, len(errs))
	for i, x := range errs {
		es[i] = clip
		if finite(x) {
			es[i] = inUnits(x, u)
		}
	}
	return E{"op": "cells", "kind": kind, "time": false, "h": inUnits(h, u), "noise": inUnits(noise, u), "e": es}
}

func axis(c Col, a int) []float64 {
	out := make([]float64, len(c.Caps))
	for i, x := range c.Caps {
		if a < len(x.V) {
			out[i] = x.V[a].f64()
		}
	}
	return out
}
func timesOf(c Col) []float64 {
	out := make([]float64, len(c.Caps))
	for i, x := range c.Caps {
		out[i] = x.T.f64()
	}
	return out
}
func chronological(ts []float64) bool {
	for i := 1; i < len(ts); i++ {
		if !(ts[i] >= ts[i-1]) {
			return false
		}
	}
	return true
}

func measureCol(cfg Cfg, want, got Col) (out []E) {
	add := func(e E) {
		if e != nil {
			out = append(out, e)
		}
	}
	if want.K != got.K || len(want.Caps) != len(got.Caps) || len(want.Caps) == 0 {
		return nil
	}
	if ts := timesOf(want); cfg.TT == 2 && chronological(ts) {
		add(measureSteps("time", true, 16, ts, timesOf(got), true))
	}
	tech := -1
	for _, e := range cfg.Encs {
		if e.K == want.K {
			tech = e.T
			break
		}
	}
	n := len(want.Caps)
	switch {
	case want.K == "position" && tech >= 2 && n > 1:
		bits := 16
		if tech == 3 {
			bits = 8
		}
		for a := 0; a < 3; a++ {
			add(measureSteps("position", false, bits, axis(want, a), axis(got, a), false))
		}
	case want.K == "float" && tech == 2:
		w, g := axis(want, 0), axis(got, 0)
		lo, hi := math.Inf(1), math.Inf(-1)
		for _, x := range w {
			lo, hi = math.Min(lo, x), math.Max(hi, x)
		}
		if !finite(w...) || !finite(f32of(lo), f32of(hi), f32of(hi-lo)) || !finite(f32of(f32of(hi)-f32of(lo))) {
			return
		}
		errs := make([]float64, n)
		for i := range w {
			errs[i] = g[i] - w[i]
		}
		big := math.Abs(lo) + math.Abs(hi)
		add(measureCells("float", (hi-lo)/(1<<17), big*math.Pow(2, -23)+math.Pow(2, -148), errs))
	case want.K == "euler" && tech == 2:
		for a := 0; a < 3; a++ {
			w, g := axis(want, a), axis(got, a)
			if !finite(w...) {
				continue
			}
			big := 360.0
			errs := make([]float64, n)
			for i := range w {
				big = math.Max(big, math.Abs(w[i]))
				e := math.Mod(g[i], 360) - math.Mod(w[i], 360)
				for e >= 180 {
					e -= 360
				}
				for e < -180 {
					e += 360
				}
				if g[i] < 0 || g[i] > 360 {
					e = math.Inf(1)
				}
				errs[i] = e
			}
			noise := big * math.Pow(2, -48)
			if noise > 180 {
				continue
			}
			h := 360.0 / (1 << 17)
			if n == 1 {
				h = math.Pow(2, -16) // half the spacing of float32 below 512
			}
			add(measureCells("euler", h, noise, errs))
		}
	}
	return
}

func measureRec(cfg Cfg, want, got Rec) (out []E) {
	if len(want.Cols) == len(got.Cols) {
		for i := range want.Cols {
			out = append(out, measureCol(cfg, want.Cols[i], got.Cols[i])...)
		}
	}
	if len(want.Kids) == len(got.Kids) {
		for i := range want.Kids {
			out = append(out, measureRec(cfg, want.Kids[i], got.Kids[i])...)
		}
	}
	return
}
