package main

// The abstract view of a recording that the specification speaks about, and
// the two directions between it and the real types.

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"math"
	"sort"
	"time"

	"github.com/EliCDavis/vector/vector2"
	"github.com/EliCDavis/vector/vector3"
	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/collection/enum"
	"github.com/recolude/rap/format/collection/euler"
	"github.com/recolude/rap/format/collection/event"
	"github.com/recolude/rap/format/collection/float"
	"github.com/recolude/rap/format/collection/position"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
)

// Words is a 64 bit pattern as four 16 bit words, most significant first.
type Words [4]int

func wordsOf(x uint64) Words {
	return Words{int(x >> 48), int(x >> 32 & 0xffff), int(x >> 16 & 0xffff), int(x & 0xffff)}
}
func (w Words) u64() uint64 {
	return uint64(w[0])<<48 | uint64(w[1])<<32 | uint64(w[2])<<16 | uint64(w[3])
}

var nanWords = Words{32760, 0, 0, 0}

func fw(f float64) Words {
	if math.IsNaN(f) {
		return nanWords
	}
	return wordsOf(math.Float64bits(f))
}
func (w Words) f64() float64 { return math.Float64frombits(w.u64()) }

// Prop is a metadata value: kind code, scalar payload, parts.
type Prop struct {
	C int    `json:"c"`
	S string `json:"s"`
	K []KV   `json:"k"`
}

// KV is a key (hex) and a value; it travels as a two element array.
type KV struct {
	Key string
	Val Prop
}

func (kv KV) MarshalJSON() ([]byte, error) { return jsonMarshal([]interface{}{kv.Key, kv.Val}) }
func (kv *KV) UnmarshalJSON(b []byte) error {
	return jsonUnmarshal(b, &[]interface{}{&kv.Key, &kv.Val})
}

type Cap struct {
	T  Words   `json:"t"`
	V  []Words `json:"v"`
	N  string  `json:"n"`
	Md []KV    `json:"md"`
}
type Col struct {
	K    string   `json:"k"`
	Nm   string   `json:"nm"`
	Mem  []string `json:"mem"`
	Caps []Cap    `json:"caps"`
}
type Ref struct {
	Nm  string `json:"nm"`
	URI string `json:"uri"`
	Sz  Words  `json:"sz"`
	Md  []KV   `json:"md"`
}
type Bin struct {
	Nm   string `json:"nm"`
	Data string `json:"data"`
	Sz   Words  `json:"sz"`
	Md   []KV   `json:"md"`
}
type Rec struct {
	ID   string `json:"id"`
	Nm   string `json:"nm"`
	Md   []KV   `json:"md"`
	Cols []Col  `json:"cols"`
	Refs []Ref  `json:"refs"`
	Bins []Bin  `json:"bins"`
	Kids []Rec  `json:"kids"`
}

// norm replaces nil slices by empty ones, so that JSON has [] everywhere.
func normKV(m []KV) []KV {
	out := make([]KV, len(m))
	for i, kv := range m {
		out[i] = KV{kv.Key, normProp(kv.Val)}
	}
	return out
}
func normProp(p Prop) Prop { p.K = normKV(p.K); return p }
func sortKV(m []KV) []KV {
	sort.SliceStable(m, func(i, j int) bool { return m[i].Key < m[j].Key })
	for i := range m {
		sortProp(&m[i].Val)
	}
	return m
}
func sortProp(p *Prop) {
	if p.C == 11 {
		sortKV(p.K)
		return
	}
	for i := range p.K {
		sortProp(&p.K[i].Val)
	}
}
func (r Rec) norm() Rec {
	r.Md = sortKV(normKV(r.Md))
	cols := make([]Col, len(r.Cols))
	for i, c := range r.Cols {
		c.Mem = append([]string{}, c.Mem...)
		caps := make([]Cap, len(c.Caps))
		for j, cp := range c.Caps {
			cp.V = append([]Words{}, cp.V...)
			cp.Md = sortKV(normKV(cp.Md))
			caps[j] = cp
		}
		c.Caps = caps
		cols[i] = c
	}
	r.Cols = cols
	refs := make([]Ref, len(r.Refs))
	for i, x := range r.Refs {
		x.Md = sortKV(normKV(x.Md))
		refs[i] = x
	}
	r.Refs = refs
	bins := make([]Bin, len(r.Bins))
	for i, x := range r.Bins {
		x.Md = sortKV(normKV(x.Md))
		bins[i] = x
	}
	r.Bins = bins
	kids := make([]Rec, len(r.Kids))
	for i, k := range r.Kids {
		kids[i] = k.norm()
	}
	r.Kids = kids
	return r
}

func hx(s string) string { return hex.EncodeToString([]byte(s)) }
func unhx(s string) string {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic("bad hex in scenario: " + s)
	}
	return string(b)
}

// ---------------------------------------------------------------- to real types

const (
	cStr, cInt, cF32, cTrue, cFalse, cByte = 0, 1, 2, 3, 4, 5
	cVec2, cVec3, cBlock, cTime            = 6, 7, 11, 12
	cBools, cBytes                         = 16, 18
)

func le64(b string, i int) uint64 { return binary.LittleEndian.Uint64([]byte(b)[8*i:]) }
func le32(b string) uint32        { return binary.LittleEndian.Uint32([]byte(b)) }

func buildProp(p Prop) metadata.Property {
	raw := unhx(p.S)
	switch p.C {
	case cStr:
		return metadata.NewStringProperty(raw)
	case cInt:
		return metadata.NewIntProperty(int(int32(le32(raw))))
	case cF32:
		return metadata.NewFloat32Property(math.Float32frombits(le32(raw)))
	case cTrue:
		return metadata.NewBoolProperty(true)
	case cFalse:
		return metadata.NewBoolProperty(false)
	case cByte:
		return metadata.NewByteProperty(raw[0])
	case cVec2:
		return metadata.NewVector2Property(math.Float64frombits(le64(raw, 0)), math.Float64frombits(le64(raw, 1)))
	case cVec3:
		return metadata.NewVector3Property(math.Float64frombits(le64(raw, 0)), math.Float64frombits(le64(raw, 1)), math.Float64frombits(le64(raw, 2)))
	case cBlock:
		return metadata.NewMetadataProperty(buildBlock(p.K))
	case cTime:
		return metadata.NewTimeProperty(timeOf(raw))
	case cBools:
		bs := make([]bool, len(raw))
		for i := range bs {
			bs[i] = raw[i] != 0
		}
		return metadata.NewBoolArrayProperty(bs)
	case cBytes:
		return metadata.NewBinaryArrayProperty([]byte(raw))
	case 13 + cStr:
		xs := make([]string, len(p.K))
		for i, kv := range p.K {
			xs[i] = unhx(kv.Val.S)
		}
		return metadata.NewStringArrayProperty(xs)
	case 13 + cInt:
		xs := make([]int, len(p.K))
		for i, kv := range p.K {
			xs[i] = int(int32(le32(unhx(kv.Val.S))))
		}
		return metadata.NewIntArrayProperty(xs)
	case 13 + cF32:
		xs := make([]float32, len(p.K))
		for i, kv := range p.K {
			xs[i] = math.Float32frombits(le32(unhx(kv.Val.S)))
		}
		return metadata.NewFloat32ArrayProperty(xs)
	case 13 + cVec2:
		xs := make([]vector2.Float64, len(p.K))
		for i, kv := range p.K {
			r := unhx(kv.Val.S)
			xs[i] = vector2.New(math.Float64frombits(le64(r, 0)), math.Float64frombits(le64(r, 1)))
		}
		return metadata.NewVector2ArrayProperty(xs)
	case 13 + cVec3:
		xs := make([]vector3.Float64, len(p.K))
		for i, kv := range p.K {
			r := unhx(kv.Val.S)
			xs[i] = vector3.New(math.Float64frombits(le64(r, 0)), math.Float64frombits(le64(r, 1)), math.Float64frombits(le64(r, 2)))
		}
		return metadata.NewVector3ArrayProperty(xs)
	case 13 + cBlock:
		xs := make([]metadata.Block, len(p.K))
		for i, kv := range p.K {
			xs[i] = buildBlock(kv.Val.K)
		}
		return metadata.NewMetadataArrayProperty(xs)
	case 13 + cTime:
		xs := make([]time.Time, len(p.K))
		for i, kv := range p.K {
			xs[i] = timeOf(unhx(kv.Val.S))
		}
		return metadata.NewTimestampArrayProperty(xs)
	}
	panic(fmt.Sprintf("scenario asks for unknown property code %d", p.C))
}

var zone = time.FixedZone("verif", 5*3600+1800)

func timeOf(raw string) time.Time {
	us := int64(le64(raw, 0))
	t := time.UnixMicro(us).UTC()
	if us%3 == 0 {
		t = t.In(zone)
	}
	if us%2 == 0 {
		t = t.Add(time.Duration(us & 511)) // below a microsecond
	}
	return t
}

func buildBlock(m []KV) metadata.Block {
	if len(m) == 0 {
		return metadata.EmptyBlock()
	}
	out := make(map[string]metadata.Property)
	for _, kv := range m {
		out[unhx(kv.Key)] = buildProp(kv.Val)
	}
	return metadata.NewBlock(out)
}

func buildCol(c Col) format.CaptureCollection {
	nm := unhx(c.Nm)
	switch c.K {
	case "position":
		cs := make([]position.Capture, len(c.Caps))
		for i, x := range c.Caps {
			cs[i] = position.NewCapture(x.T.f64(), x.V[0].f64(), x.V[1].f64(), x.V[2].f64())
		}
		return position.NewCollection(nm, cs)
	case "euler":
		cs := make([]euler.Capture, len(c.Caps))
		for i, x := range c.Caps {
			cs[i] = euler.NewEulerZXYCapture(x.T.f64(), x.V[0].f64(), x.V[1].f64(), x.V[2].f64())
		}
		return euler.NewCollection(nm, cs)
	case "float":
		cs := make([]float.Capture, len(c.Caps))
		for i, x := range c.Caps {
			cs[i] = float.NewCapture(x.T.f64(), x.V[0].f64())
		}
		return float.NewCollection(nm, cs)
	case "enum":
		cs := make([]enum.Capture, len(c.Caps))
		for i, x := range c.Caps {
			cs[i] = enum.NewCapture(x.T.f64(), int(int64(x.V[0].u64())))
		}
		mem := make([]string, len(c.Mem))
		for i, m := range c.Mem {
			mem[i] = unhx(m)
		}
		return enum.NewCollection(nm, mem, cs)
	case "event":
		cs := make([]event.Capture, len(c.Caps))
		for i, x := range c.Caps {
			cs[i] = event.NewCapture(x.T.f64(), unhx(x.N), buildBlock(x.Md))
		}
		return event.NewCollection(nm, cs)
	}
	return newForeign(c)
}

func buildRec(r Rec) format.Recording {
	cols := make([]format.CaptureCollection, len(r.Cols))
	for i, c := range r.Cols {
		cols[i] = buildCol(c)
	}
	kids := make([]format.Recording, len(r.Kids))
	for i, k := range r.Kids {
		kids[i] = buildRec(k)
	}
	bins := make([]format.Binary, len(r.Bins))
	for i, b := range r.Bins {
		bins[i] = rapio.NewBinary(unhx(b.Nm), []byte(unhx(b.Data)), buildBlock(b.Md))
	}
	refs := make([]format.BinaryReference, len(r.Refs))
	for i, b := range r.Refs {
		refs[i] = rapio.NewBinaryReference(unhx(b.Nm), unhx(b.URI), b.Sz.u64(), buildBlock(b.Md))
	}
	return format.NewRecording(unhx(r.ID), unhx(r.Nm), cols, kids, buildBlock(r.Md), bins, refs)
}

// --------------------------------------------------------------- from real types

type dataReader struct {
	b   []byte
	bad bool
}

func (d *dataReader) take(n int) []byte {
	if n < 0 || n > len(d.b) {
		d.bad = true
		d.b = nil
		return make([]byte, 0)
	}
	out := d.b[:n]
	d.b = d.b[n:]
	return out
}
func (d *dataReader) uvar() int {
	v, n := binary.Uvarint(d.b)
	if n <= 0 || v > 1<<30 {
		d.bad = true
		d.b = nil
		return 0
	}
	d.b = d.b[n:]
	return int(v)
}

func canonF(b []byte, size int) []byte {
	out := append([]byte{}, b...)
	for i := 0; i+size <= len(out); i += size {
		if size == 4 {
			f := math.Float32frombits(binary.LittleEndian.Uint32(out[i:]))
			if f != f {
				binary.LittleEndian.PutUint32(out[i:], 0x7fc00000)
			}
		} else {
			f := math.Float64frombits(binary.LittleEndian.Uint64(out[i:]))
			if f != f {
				binary.LittleEndian.PutUint64(out[i:], 0x7ff8000000000000)
			}
		}
	}
	return out
}

func parsePropData(code int, d *dataReader) Prop {
	p := Prop{C: code, K: []KV{}}
	switch code {
	case cStr, cBools, cBytes:
		p.S = hex.EncodeToString(d.take(d.uvar()))
	case cInt:
		p.S = hex.EncodeToString(d.take(4))
	case cF32:
		p.S = hex.EncodeToString(canonF(d.take(4), 4))
	case cTrue, cFalse:
	case cByte:
		p.S = hex.EncodeToString(d.take(1))
	case cVec2:
		p.S = hex.EncodeToString(canonF(d.take(16), 8))
	case cVec3:
		p.S = hex.EncodeToString(canonF(d.take(24), 8))
	case cTime:
		p.S = hex.EncodeToString(d.take(8))
	case cBlock:
		n := d.uvar()
		keys := make([]string, 0)
		for i := 0; i < n && !d.bad; i++ {
			keys = append(keys, hex.EncodeToString(d.take(d.uvar())))
		}
		for _, k := range keys {
			c := d.take(1)
			if d.bad {
				break
			}
			p.K = append(p.K, KV{k, parsePropData(int(c[0]), d)})
		}
		sortKV(p.K)
	case 13 + cStr, 13 + cInt, 13 + cF32, 13 + cVec2, 13 + cVec3, 13 + cBlock, 13 + cTime:
		n := d.uvar()
		for i := 0; i < n && !d.bad; i++ {
			p.K = append(p.K, KV{"", parsePropData(code-13, d)})
		}
	default:
		d.bad = true
	}
	return p
}

// projProp reads a property through its public methods only.
func projProp(p metadata.Property) Prop {
	if p == nil {
		return Prop{C: -1, S: hx("nil"), K: []KV{}}
	}
	d := &dataReader{b: p.Data()}
	out := parsePropData(int(p.Code()), d)
	if d.bad || len(d.b) != 0 {
		return Prop{C: -1, S: hex.EncodeToString(p.Data()), K: []KV{}}
	}
	// what the typed accessors say must agree with the bytes
	switch v := p.(type) {
	case metadata.BoolProperty:
		if v.Value() != (out.C == cTrue) {
			out.C = -2
		}
	case metadata.ByteProperty:
		if hex.EncodeToString([]byte{v.Value()}) != out.S {
			out.C = -2
		}
	case metadata.MetadataProperty:
		if fmt.Sprint(projBlock(v.Block())) != fmt.Sprint(out.K) {
			out.C = -2
		}
	}
	return out
}

func projBlock(b metadata.Block) []KV {
	out := make([]KV, 0)
	for k, v := range b.Mapping() {
		out = append(out, KV{hx(k), projProp(v)})
	}
	return sortKV(out)
}

func projCap(c format.Capture) (string, Cap) {
	out := Cap{V: []Words{}, Md: []KV{}}
	if c == nil {
		return "nil", out
	}
	out.T = fw(c.Time())
	switch v := c.(type) {
	case position.Capture:
		out.V = []Words{fw(v.Position().X()), fw(v.Position().Y()), fw(v.Position().Z())}
		return "position", out
	case euler.Capture:
		out.V = []Words{fw(v.EulerZXY().X()), fw(v.EulerZXY().Y()), fw(v.EulerZXY().Z())}
		return "euler", out
	case float.Capture:
		out.V = []Words{fw(v.Value())}
		return "float", out
	case enum.Capture:
		out.V = []Words{wordsOf(uint64(int64(v.Value())))}
		return "enum", out
	case event.Capture:
		out.N = hx(v.Name())
		out.Md = projBlock(v.Metadata())
		return "event", out
	case foreignCap:
		out.V = []Words{fw(v.v)}
		return "foreign", out
	}
	return "unknown", out
}

func projCol(c format.CaptureCollection) Col {
	out := Col{Mem: []string{}, Caps: []Cap{}}
	if c == nil {
		out.K = "nil"
		return out
	}
	out.Nm = hx(c.Name())
	caps := c.Captures()
	kind := "unknown"
	typed := c
	if o, own := c.(*ownCol); own {
		typed = o.in
	}
	switch v := typed.(type) {
	case position.Collection:
		kind = "position"
	case euler.Collection:
		kind = "euler"
	case float.Collection:
		kind = "float"
	case enum.Collection:
		kind = "enum"
		for _, m := range v.EnumMembers() {
			out.Mem = append(out.Mem, hx(m))
		}
	case event.Collection:
		kind = "event"
	case foreign:
		kind = v.k
	}
	out.K = kind
	if _, own := c.(foreign); !own && c.Signature() != "recolude."+kind {
		out.K = "signature:" + c.Signature()
	}
	if c.Length() != len(caps) {
		out.K = "length"
	}
	for i, cp := range caps {
		k, a := projCap(cp)
		if k != kind && !(k == "foreign") {
			out.K = "capture:" + k
		}
		if i < c.Length() {
			if _, b := projCap(c.CaptureAt(i)); fmt.Sprint(a) != fmt.Sprint(b) {
				out.K = "captureAt"
			}
		}
		out.Caps = append(out.Caps, a)
	}
	if len(caps) > 0 && c.Length() == len(caps) {
		if fw(c.Start()) != out.Caps[0].T || fw(c.End()) != out.Caps[len(caps)-1].T {
			out.K = "bounds"
		}
	}
	return out
}

func projRec(r format.Recording) Rec {
	out := Rec{Md: []KV{}, Cols: []Col{}, Refs: []Ref{}, Bins: []Bin{}, Kids: []Rec{}}
	if r == nil {
		out.ID = "nil"
		return out
	}
	out.ID, out.Nm = hx(r.ID()), hx(r.Name())
	out.Md = projBlock(r.Metadata())
	for _, c := range r.CaptureCollections() {
		out.Cols = append(out.Cols, projCol(c))
	}
	for _, x := range r.BinaryReferences() {
		if x == nil {
			out.Refs = append(out.Refs, Ref{Nm: "nil", Md: []KV{}})
			continue
		}
		out.Refs = append(out.Refs, Ref{hx(x.Name()), hx(x.URI()), wordsOf(x.Size()), projBlock(x.Metadata())})
	}
	for _, x := range r.Binaries() {
		if x == nil {
			out.Bins = append(out.Bins, Bin{Nm: "nil", Md: []KV{}})
			continue
		}
		data, err := io.ReadAll(x.Data())
		b := Bin{hx(x.Name()), hex.EncodeToString(data), wordsOf(x.Size()), projBlock(x.Metadata())}
		if err != nil {
			b.Nm = "error"
		}
		out.Bins = append(out.Bins, b)
	}
	for _, k := range r.Recordings() {
		out.Kids = append(out.Kids, projRec(k))
	}
	return out
}
