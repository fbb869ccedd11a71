package main

import (
	"encoding/json"
	"errors"
	"sync"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	rapio "github.com/recolude/rap/format/io"
)

// CEnc describes an encoder of the harness: what it accepts and how it fails.
type CEnc struct {
	Sig  string   `json:"sig"` // hex
	Ver  []int    `json:"ver"`
	Acc  []string `json:"acc"`
	FEnc bool     `json:"fenc"`
	FDec bool     `json:"fdec"`
}

type encodeCall struct {
	Tag   int      `json:"tag"`
	Names []string `json:"names"`
}
type decodeCall struct {
	Tag  int    `json:"tag"`
	Name string `json:"name"`
	Hdr  int    `json:"hdr"`
	N    int    `json:"n"`
}

type callLog struct {
	mu  sync.Mutex
	enc []encodeCall
	dec []decodeCall
}

// cenc is a user's encoder: it stores collections as JSON and logs its calls.
type cenc struct {
	CEnc
	tag int
	log *callLog
}

func (c cenc) Accepts(col format.CaptureCollection) bool {
	k := projCol(col).K
	for _, a := range c.Acc {
		if a == k {
			return true
		}
	}
	return false
}
func (c cenc) Signature() string { return unhx(c.Sig) }
func (c cenc) Version() uint {
	return uint(c.Ver[0])<<48 | uint(c.Ver[1])<<32 | uint(c.Ver[2])<<16 | uint(c.Ver[3])
}
func (c cenc) Encode(cols []format.CaptureCollection) ([]byte, [][]byte, error) {
	call := encodeCall{c.tag, []string{}}
	var data [][]byte
	for _, col := range cols {
		call.Names = append(call.Names, hx(col.Name()))
		b, _ := jsonMarshal(projCol(col))
		data = append(data, b)
	}
	c.log.mu.Lock()
	c.log.enc = append(c.log.enc, call)
	c.log.mu.Unlock()
	if c.FEnc {
		return nil, nil, errors.New("verif: encoder refuses")
	}
	return []byte{byte(c.tag)}, data, nil
}
func (c cenc) Decode(name string, header []byte, data []byte, times []float64) (format.CaptureCollection, error) {
	hdr := -1
	if len(header) == 1 {
		hdr = int(header[0])
	}
	c.log.mu.Lock()
	c.log.dec = append(c.log.dec, decodeCall{c.tag, hx(name), hdr, len(times)})
	c.log.mu.Unlock()
	if c.FDec {
		return nil, errors.New("verif: decoder refuses")
	}
	var col Col
	if err := json.Unmarshal(data, &col); err != nil {
		return nil, err
	}
	if len(col.Caps) != len(times) {
		return nil, errors.New("verif: number of times")
	}
	col.Nm = hx(name)
	for i := range col.Caps {
		col.Caps[i].T = fw(times[i])
	}
	return buildCol(col), nil
}

// tagsOf is the order the caller's encoders are in.
func tagsOf(encs []encoding.Encoder) []int {
	out := make([]int, len(encs))
	for i, e := range encs {
		if c, ok := e.(cenc); ok {
			out[i] = c.tag
		}
	}
	return out
}

func (s *session) nego(op Op) bool {
	src, ok := s.recs[op.Src]
	if !ok {
		return false
	}
	mk := func(cs []CEnc, log *callLog) []encoding.Encoder {
		out := make([]encoding.Encoder, len(cs))
		for i := range cs {
			out[i] = cenc{cs[i], i + 1, log}
		}
		return out
	}
	encs := op.Encs
	for i := range encs {
		if encs[i].Acc == nil {
			encs[i].Acc = []string{}
		}
	}
	wlog := &callLog{enc: []encodeCall{}}
	k := newSink()
	given := mk(encs, wlog)
	out := guard(func() error {
		_, err := rapio.NewWriter(given, op.Keep == 1, k, rapio.Raw64).Write(src)
		return err
	})
	s.t.calls++
	wnote := note()
	order := tagsOf(given)
	head, _, _, how := plain(k.buf.Bytes())
	reads := make([]E, 0)
	if out == outOK {
		for _, reg := range op.Regs {
			for i := range reg {
				if reg[i].Acc == nil {
					reg[i].Acc = []string{}
				}
			}
			rlog := &callLog{dec: []decodeCall{}}
			var rec format.Recording
			given := mk(reg, rlog)
			rout := guard(func() (err error) {
				rec, _, err = rapio.NewReader(given, newSource(k.buf.Bytes(), nil)).Read()
				return
			})
			s.t.calls++
			gl := 0
			if rec != nil {
				gl = s.t.val(project(rec))
			}
			reads = append(reads, E{"reg": reg, "out": rout, "gl": gl, "dec": rlog.dec, "order": tagsOf(given)})
		}
	}
	s.t.emit(E{"op": "nego", "src": op.Src, "encs": encs, "out": out, "note": wnote, "head": ints(head), "how": how,
		"len": k.buf.Len(), "enc": wlog.enc, "order": order, "reads": reads})
	return out != outHang
}

// reject writes a recording with something missing in it.
func (s *session) reject(op Op) bool {
	want := op.Rec.norm()
	var rec format.Recording
	rec = withHole(want, op.Path, op)
	cfg := op.Cfg.effective()
	k := newSink()
	n := 0
	out := guard(func() (err error) { n, err = cfg.writer(k).Write(rec); return })
	s.t.calls++
	s.t.emit(E{"op": "reject", "what": op.What, "path": append([]int{}, op.Path...), "at": op.At, "cfg": cfg, "out": out, "note": note(),
		"n": n, "len": k.buf.Len(), "calls": k.calls, "wl": s.t.val(want)})
	return out != outHang
}

// withHole builds a recording in which the item at position at (1 based; one
// past the end to append) of the node at path is nil or of an unknown kind.
func withHole(r Rec, path []int, op Op) format.Recording {
	what, at := op.What, op.At
	cols := make([]format.CaptureCollection, 0)
	for _, c := range r.Cols {
		cols = append(cols, buildCol(c))
	}
	kids := make([]format.Recording, 0)
	for i, k := range r.Kids {
		if len(path) > 0 && path[0] == i+1 {
			kids = append(kids, withHole(k, path[1:], op))
		} else {
			kids = append(kids, buildRec(k))
		}
	}
	bins := make([]format.Binary, 0)
	refs := make([]format.BinaryReference, 0)
	tmp := buildRec(Rec{Bins: r.Bins, Refs: r.Refs})
	bins = append(bins, tmp.Binaries()...)
	refs = append(refs, tmp.BinaryReferences()...)
	if len(path) == 0 {
		i := at - 1
		switch what {
		case "kid":
			kids = append(kids[:i:i], append([]format.Recording{nil}, kids[i:]...)...)
		case "col":
			cols = append(cols[:i:i], append([]format.CaptureCollection{nil}, cols[i:]...)...)
		case "foreign":
			cols = append(cols[:i:i], append([]format.CaptureCollection{newForeign(Col{K: "verif.foreign", Nm: "66"})}, cols[i:]...)...)
		case "mixed", "nilcap":
			kind, other := kinds5[op.N%5], kinds5[(op.N+1+op.N/5%4)%5]
			good := Cap{T: fw(1), V: []Words{fw(0), fw(0), fw(0)}, Md: []KV{}}
			caps := buildCol(Col{K: kind, Nm: "66", Mem: []string{"61"}, Caps: make3(good)}).Captures()
			var bad format.Capture
			if what == "mixed" {
				bad = buildCol(Col{K: other, Nm: "66", Mem: []string{"61"}, Caps: make3(good)}).Captures()[0]
			}
			caps = append([]format.Capture{}, caps...)
			caps[op.N/20%3] = bad
			cols = append(cols[:i:i], append([]format.CaptureCollection{mixed{foreign{k: "recolude." + kind, nm: "f"}, caps}}, cols[i:]...)...)
		case "bin":
			bins = append(bins[:i:i], append([]format.Binary{nil}, bins[i:]...)...)
		case "ref":
			refs = append(refs[:i:i], append([]format.BinaryReference{nil}, refs[i:]...)...)
		}
	}
	return format.NewRecording(unhx(r.ID), unhx(r.Nm), cols, kids, buildBlock(r.Md), bins, refs)
}

var kinds5 = []string{"position", "euler", "float", "enum", "event"}

func make3(c Cap) []Cap { return []Cap{c, c, c} }

// mixed says it is of one kind and has a capture of another, or none.
type mixed struct {
	foreign
	caps []format.Capture
}

func (m mixed) Captures() []format.Capture                  { return m.caps }
func (m mixed) Length() int                                 { return len(m.caps) }
func (m mixed) CaptureAt(i int) format.Capture              { return m.caps[i] }
func (m mixed) Slice(b, e float64) format.CaptureCollection { return m }
func (m mixed) Start() float64                              { return 1 }
func (m mixed) End() float64                                { return 1 }
