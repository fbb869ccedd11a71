package main

import (
	"encoding/json"
	"io"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/collection/enum"
	"github.com/recolude/rap/format/metadata"
)

// What a user of the library may bring along instead of its own types:
// recordings that make their lists anew each time they are asked, or have nil
// where others have empty lists, collections behind a type of one's own, and
// binaries whose data comes in pieces (or fails).

// how a recording is built (Op.Own)
const (
	ownNone   = iota // the types of the library
	ownFixed         // own types, lists made once, nil when empty
	ownFresh         // own types, lists made each time
	ownShared        // the types of the library, equal parts being the same object
)

// deliveries says how each binary hands out its data, counting them in the
// order the recording has them.
type deliveries struct {
	d    *Delivery
	nth  int // the one that fails
	fail *Delivery
	seen int
}

func (d *deliveries) next() *Delivery {
	d.seen++
	if d.seen == d.nth {
		return d.fail
	}
	return d.d
}

type ownRec struct {
	r     Rec
	fresh bool
	cols  []format.CaptureCollection
	kids  []format.Recording
	bins  []format.Binary
	refs  []format.BinaryReference
	block metadata.Block
}

func newOwn(r Rec, fresh bool, d *deliveries) *ownRec {
	o := &ownRec{r: r, fresh: fresh, block: buildBlock(r.Md)}
	for _, c := range o.r.Cols {
		col := buildCol(c)
		if _, cast := col.(enum.Collection); !cast { // its encoder asks for the very type
			col = &ownCol{col}
		}
		o.cols = append(o.cols, col)
	}
	for _, b := range o.r.Refs {
		o.refs = append(o.refs, &ownRef{b})
	}
	for _, b := range o.r.Bins {
		o.bins = append(o.bins, &ownBin{b, d.next()})
	}
	for _, k := range o.r.Kids {
		o.kids = append(o.kids, newOwn(k, fresh, d))
	}
	return o
}

func (o *ownRec) ID() string               { return unhx(o.r.ID) }
func (o *ownRec) Name() string             { return unhx(o.r.Nm) }
func (o *ownRec) Metadata() metadata.Block { return o.block }
func (o *ownRec) CaptureCollections() []format.CaptureCollection {
	if o.fresh {
		return append([]format.CaptureCollection{}, o.cols...)
	}
	return o.cols
}
func (o *ownRec) Recordings() []format.Recording {
	if o.fresh {
		return append([]format.Recording{}, o.kids...)
	}
	return o.kids
}
func (o *ownRec) Binaries() []format.Binary {
	if o.fresh {
		return append([]format.Binary{}, o.bins...)
	}
	return o.bins
}
func (o *ownRec) BinaryReferences() []format.BinaryReference {
	if o.fresh {
		return append([]format.BinaryReference{}, o.refs...)
	}
	return o.refs
}

type ownCol struct{ in format.CaptureCollection }

func (c *ownCol) Name() string      { return c.in.Name() }
func (c *ownCol) Signature() string { return c.in.Signature() }
func (c *ownCol) Captures() []format.Capture {
	return append([]format.Capture(nil), c.in.Captures()...)
}
func (c *ownCol) Length() int                    { return c.in.Length() }
func (c *ownCol) CaptureAt(i int) format.Capture { return c.in.CaptureAt(i) }
func (c *ownCol) Start() float64                 { return c.in.Start() }
func (c *ownCol) End() float64                   { return c.in.End() }
func (c *ownCol) Slice(b, e float64) format.CaptureCollection {
	return &ownCol{c.in.Slice(b, e)}
}

type ownBin struct {
	b Bin
	d *Delivery
}

func (b *ownBin) Name() string             { return unhx(b.b.Nm) }
func (b *ownBin) Data() io.Reader          { return newSource([]byte(unhx(b.b.Data)), b.d) }
func (b *ownBin) Size() uint64             { return uint64(len(b.b.Data) / 2) }
func (b *ownBin) Metadata() metadata.Block { return buildBlock(b.b.Md) }

type ownRef struct{ b Ref }

func (b *ownRef) Name() string             { return unhx(b.b.Nm) }
func (b *ownRef) URI() string              { return unhx(b.b.URI) }
func (b *ownRef) Size() uint64             { return b.b.Sz.u64() }
func (b *ownRef) Metadata() metadata.Block { return buildBlock(b.b.Md) }

// sharing builds with the library's types, equal parts being one object.
type sharing struct {
	kids map[string]format.Recording
	cols map[string]format.CaptureCollection
	bins map[string]format.Binary
	refs map[string]format.BinaryReference
}

func keyOf(x interface{}) string { b, _ := json.Marshal(x); return string(b) }

func (s *sharing) build(r Rec) format.Recording {
	key := keyOf(r)
	if out, ok := s.kids[key]; ok {
		return out
	}
	cols := make([]format.CaptureCollection, len(r.Cols))
	for i, c := range r.Cols {
		k := keyOf(c)
		if _, ok := s.cols[k]; !ok {
			s.cols[k] = buildCol(c)
		}
		cols[i] = s.cols[k]
	}
	kids := make([]format.Recording, len(r.Kids))
	for i, k := range r.Kids {
		kids[i] = s.build(k)
	}
	tmp := buildRec(Rec{Bins: r.Bins, Refs: r.Refs})
	bins := make([]format.Binary, len(r.Bins))
	for i, b := range r.Bins {
		k := keyOf(b)
		if _, ok := s.bins[k]; !ok {
			s.bins[k] = tmp.Binaries()[i]
		}
		bins[i] = s.bins[k]
	}
	refs := make([]format.BinaryReference, len(r.Refs))
	for i, b := range r.Refs {
		k := keyOf(b)
		if _, ok := s.refs[k]; !ok {
			s.refs[k] = tmp.BinaryReferences()[i]
		}
		refs[i] = s.refs[k]
	}
	out := format.NewRecording(unhx(r.ID), unhx(r.Nm), cols, kids, buildBlock(r.Md), bins, refs)
	s.kids[key] = out
	return out
}

func buildAs(r Rec, own int, d *Delivery) format.Recording {
	if d == nil {
		d = &Delivery{FailAt: -1}
	}
	switch own {
	case ownFixed, ownFresh:
		return newOwn(r, own == ownFresh, &deliveries{d: d})
	case ownShared:
		s := &sharing{map[string]format.Recording{}, map[string]format.CaptureCollection{}, map[string]format.Binary{}, map[string]format.BinaryReference{}}
		return s.build(r)
	}
	return buildRec(r)
}

// binfails writes a recording over and over, another of its binaries failing
// at another byte each time.
func (s *session) binfails(op Op) bool {
	want := op.Rec.norm()
	cfg := op.Cfg.effective()
	var all []Bin
	var walk func(r Rec)
	walk = func(r Rec) {
		all = append(all, r.Bins...)
		for _, k := range r.Kids {
			walk(k)
		}
	}
	walk(want)
	res := make([][]int, 0)
	ok := true
	for nth := 1; ok && nth <= len(all); nth++ {
		size := len(all[nth-1].Data) / 2
		for at := 0; ok && at <= size; at += stepOf(op.Step, size) {
			fail := *op.Del
			fail.FailAt = at
			fail.Err = op.Del.Err + at
			// a failure right behind the data needs one more read
			ds := &deliveries{d: op.Del, nth: nth, fail: &fail}
			src := newOwn(want, false, ds)
			k := newSink()
			n := 0
			out := guard(func() (err error) { n, err = cfg.writer(k).Write(src); return })
			s.t.calls++
			res = append(res, []int{nth, at, outCode(out), n, k.buf.Len()})
			ok = out != outHang
		}
	}
	s.t.emit(E{"op": "binfails", "wl": s.t.val(want), "cfg": cfg, "res": res, "note": note()})
	return ok
}
