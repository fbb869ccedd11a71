package main

import (
	"bytes"
	"compress/flate"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"

	"github.com/recolude/rap/format/encoding"
	encenum "github.com/recolude/rap/format/encoding/enum"
	enceuler "github.com/recolude/rap/format/encoding/euler"
	encevent "github.com/recolude/rap/format/encoding/event"
	encfloat "github.com/recolude/rap/format/encoding/float"
	encposition "github.com/recolude/rap/format/encoding/position"
	rapio "github.com/recolude/rap/format/io"
)

// Enc names an encoder: its kind and technique.
type Enc struct {
	K string `json:"k"`
	T int    `json:"t"`
}

// Cfg is how a writer is set up; Def: the default writer.
type Cfg struct {
	Encs []Enc `json:"encs"`
	TT   int   `json:"tt"`
	Comp bool  `json:"comp"`
	Def  bool  `json:"def"`
}

func encoderOf(e Enc) encoding.Encoder {
	switch e.K {
	case "position":
		return encposition.NewEncoder(encposition.StorageTechnique(e.T))
	case "euler":
		return enceuler.NewEncoder(enceuler.StorageTechnique(e.T))
	case "float":
		return encfloat.NewEncoder(encfloat.StorageTechnique(e.T))
	case "enum":
		return encenum.NewEncoder()
	case "event":
		return encevent.NewEncoder()
	}
	panic("no such encoder: " + e.K)
}

func encodersOf(es []Enc) []encoding.Encoder {
	out := make([]encoding.Encoder, len(es))
	for i, e := range es {
		out[i] = encoderOf(e)
	}
	return out
}

func allEncs() []Enc {
	return []Enc{{"event", 0}, {"position", 0}, {"euler", 0}, {"enum", 0}, {"float", 0}}
}

// effective is the configuration with the default writer spelled out.
func (c Cfg) effective() Cfg {
	if c.Def {
		return Cfg{Encs: []Enc{{"event", 0}, {"position", 2}, {"euler", 1}, {"enum", 0}}, TT: 2, Comp: true, Def: true}
	}
	if c.Encs == nil {
		c.Encs = []Enc{}
	}
	return c
}

func (c Cfg) writer(out io.Writer) rapio.Writer {
	if c.Def {
		return rapio.NewRecoludeWriter(out)
	}
	return rapio.NewWriter(encodersOf(c.Encs), c.Comp, out, rapio.TimeStorageTechnique(c.TT))
}

// ------------------------------------------------------------------------ sinks

var errSink = errors.New("verif: sink refuses")
var errSource = errors.New("verif: source fails")

// what sources and sinks fail with; none of them is the end of the input
var errKinds = []error{errSource, io.ErrUnexpectedEOF, io.ErrClosedPipe, fmt.Errorf("verif: %w", io.EOF), os.ErrDeadlineExceeded,
	io.ErrShortWrite, io.ErrNoProgress, context.Canceled}

func errKind(i int) error { return errKinds[i%len(errKinds)] }

// sink accepts cap bytes in all (cap < 0: any number), then fails, taking what
// still fits of the failing write when partial is set.  failCall > 0: that call
// fails instead.
type sink struct {
	buf      bytes.Buffer
	cap      int
	partial  bool
	failCall int
	err      int
	recover  bool // fails once and accepts everything afterwards
	calls    int
	failed   bool
	after    int // calls made after the first failure
}

// error is what the sink fails with (writers may even be told "EOF")
func (s *sink) error() error {
	if s.err == 0 {
		return errSink
	}
	if s.err%len(errKinds) == 0 {
		return io.EOF
	}
	return errKind(s.err)
}

func newSink() *sink { return &sink{cap: -1} }

func (s *sink) Write(p []byte) (int, error) {
	s.calls++
	if s.failed && s.recover {
		return s.buf.Write(p)
	}
	if s.failed {
		s.after++
		return 0, s.error()
	}
	if s.failCall > 0 && s.calls == s.failCall {
		s.failed = true
		n := 0
		if s.partial {
			n = len(p) / 2
			s.buf.Write(p[:n])
		}
		return n, s.error()
	}
	if s.cap >= 0 && s.buf.Len()+len(p) > s.cap {
		s.failed = true
		n := 0
		if s.partial {
			n = s.cap - s.buf.Len()
			s.buf.Write(p[:n])
		}
		return n, s.error()
	}
	return s.buf.Write(p)
}

// ---------------------------------------------------------------------- sources

// Delivery is how a source hands out its bytes.
type Delivery struct {
	Sizes   []int `json:"sizes"`    // chunk sizes, repeated; 0 is an empty read; empty: all that is asked for
	EOFData bool  `json:"eofdata"`  // the last bytes come together with io.EOF
	FailAt  int   `json:"failat"`   // >= 0: fails with its own error at that offset
	FailEOF bool  `json:"faildata"` // the failure comes together with the last bytes before it
	Err     int   `json:"err"`      // which error it fails with
}

type source struct {
	data   []byte
	pos    int
	d      Delivery
	step   int
	left   int // of the current chunk
	inStep bool
	reads  int
}

func newSource(data []byte, d *Delivery) *source {
	s := &source{data: data}
	if d != nil {
		s.d = *d
	} else {
		s.d.FailAt = -1
	}
	return s
}

func (s *source) Read(p []byte) (int, error) {
	s.reads++
	end := len(s.data)
	if s.d.FailAt >= 0 && s.d.FailAt < end {
		end = s.d.FailAt
	}
	fail := func() error {
		if s.d.FailAt >= 0 && s.pos >= s.d.FailAt {
			return errKind(s.d.Err)
		}
		return io.EOF
	}
	if s.pos >= end {
		return 0, fail()
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := end - s.pos
	if len(s.d.Sizes) > 0 {
		c := s.d.Sizes[s.step%len(s.d.Sizes)]
		s.step++
		if c < n {
			n = c
		}
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.pos >= end && n > 0 {
		if fail() != io.EOF && s.d.FailEOF || fail() == io.EOF && s.d.EOFData {
			return n, fail()
		}
	}
	return n, nil
}

// -------------------------------------------------------------- files as plain bytes

func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}
func unints(xs []int) []byte {
	out := make([]byte, len(xs))
	for i, x := range xs {
		out[i] = byte(x)
	}
	return out
}

// headLen finds the end of the head of a version 2 file (past the flag byte).
func headLen(b []byte) (int, bool) {
	if len(b) < 1 || b[0] != 2 {
		return 0, false
	}
	p := 1
	uvar := func() int {
		if p > len(b) {
			return -1
		}
		v, n := binary.Uvarint(b[p:])
		if n <= 0 || v > 1<<20 {
			p = len(b) + 1
			return -1
		}
		p += n
		return int(v)
	}
	n := uvar()
	for i := 0; i < n; i++ {
		l := uvar()
		if l < 0 {
			return 0, false
		}
		p += l
	}
	for i := 0; i < n; i++ {
		uvar()
	}
	if n < 0 || p >= len(b) {
		return 0, false
	}
	return p + 1, true
}

// plain splits a file into head and (inflated) body.
func plain(b []byte) (head, body []byte, tail int, how string) {
	h, ok := headLen(b)
	if !ok {
		return b, nil, 0, "headless"
	}
	if b[h-1] != 1 {
		return b[:h], b[h:], 0, "plain"
	}
	src := bytes.NewReader(b[h:])
	out, err := io.ReadAll(flate.NewReader(src))
	if err != nil {
		return b[:h], out, src.Len(), "broken"
	}
	return b[:h], out, src.Len(), "inflated"
}

func deflated(b []byte) []byte {
	var out bytes.Buffer
	w, _ := flate.NewWriter(&out, 9)
	w.Write(b)
	w.Close()
	return out.Bytes()
}

func inflated(b []byte) ([]byte, bool) {
	out, err := io.ReadAll(flate.NewReader(bytes.NewReader(b)))
	return out, err == nil
}
