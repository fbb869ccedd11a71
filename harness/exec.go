package main

import (
	"bytes"
	"io"
	"math"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	rapio "github.com/recolude/rap/format/io"
)

// Op is one step of a scenario.
type Op struct {
	Op    string     `json:"op"`
	H     string     `json:"h"`
	Src   string     `json:"src"`
	F     string     `json:"f"`
	Rec   *Rec       `json:"rec"`
	B     []int      `json:"b"`
	E     []int      `json:"e"`
	Keep  int        `json:"keep"`
	Req   int        `json:"req"`
	Cfg   *Cfg       `json:"cfg"`
	Reg   []string   `json:"reg"` // kinds a reader has; ["load"]: the package's Load
	Del   *Delivery  `json:"del"`
	Dels  []Delivery `json:"dels"`
	Junk  int        `json:"junk"` // bytes behind the file
	Bytes bool       `json:"bytes"`
	Step  int        `json:"step"`
	Head  []int      `json:"head"`
	Body  []int      `json:"body"`
	Path  []int      `json:"path"`
	What  string     `json:"what"`
	At    int        `json:"at"`
	Seed  int64      `json:"seed"`
	N     int        `json:"n"`
	Encs  []CEnc     `json:"encs"`
	Regs  [][]CEnc   `json:"regs"`
	Tag   string     `json:"tag"`
	Num   []int      `json:"num"`
	Delta int        `json:"delta"`
	Prop  string     `json:"prop"`

	Doc      *Tree    `json:"doc"`
	Mode     int      `json:"mode"`
	ModeName string   `json:"modename"`
	Pad      int      `json:"pad"`
	Md       []KV     `json:"md"`
	CHead    []string `json:"chead"`
	Rows     [][]Cell `json:"rows"`

	Own   int      `json:"own"`
	Jobs  []Job    `json:"jobs"`
	Sched [][]int  `json:"sched"`
	W     string   `json:"w"`
	Fs    []string `json:"fs"`
	One   bool     `json:"one"`
}

// Scenario is a list of steps run against fresh state.
type Scenario struct {
	ID  string `json:"id"`
	Ops []Op   `json:"ops"`
}

type session struct {
	t     *Tracer
	recs  map[string]format.Recording
	vals  map[string]int // val line of each recording handle
	files map[string][]byte
	abs   map[string]Rec   // what each recording handle stands for
	last  Rec              // what the last load gave
	held  format.Recording // and the recording itself
	wrote map[string]wrote // how each file was written
	encs  map[string][]encoding.Encoder
	outs  map[string]*outlet
}

type wrote struct {
	rec Rec
	cfg Cfg
}

func outCode(o string) int {
	switch o {
	case outOK:
		return 0
	case outErr:
		return 1
	case outPanic:
		return 2
	}
	return 3
}

func runScenario(t *Tracer, sc Scenario, nth int) {
	t.emit(E{"op": "reset", "id": sc.ID, "sc": nth})
	s := &session{t: t, recs: map[string]format.Recording{}, vals: map[string]int{}, files: map[string][]byte{},
		abs: map[string]Rec{}, wrote: map[string]wrote{}, encs: map[string][]encoding.Encoder{}, outs: map[string]*outlet{}}
	for _, op := range sc.Ops {
		if !s.step(op) {
			return
		}
	}
}

// project reads a recording back; a panic while doing so is a value of its own.
func project(r format.Recording) (out Rec) {
	if guard(func() error { out = projRec(r); return nil }) != outOK {
		return Rec{ID: "panic", Nm: hx(note())}.norm()
	}
	return out
}

func regOf(kinds []string) []Enc {
	out := make([]Enc, 0)
	for _, k := range kinds {
		if k == "load" {
			return []Enc{{"event", 0}, {"position", 2}, {"euler", 1}, {"enum", 0}}
		}
		out = append(out, Enc{k, 0})
	}
	return out
}

// loadFrom reads one recording from a source.
func loadFrom(kinds []string, in io.Reader) (format.Recording, int, error) {
	if len(kinds) == 1 && kinds[0] == "load" {
		return rapio.Load(in)
	}
	return rapio.NewReader(encodersOf(regOf(kinds)), in).Read()
}

// load reports how a load ended, its count and the line of what it gave (0: nothing).
func (s *session) load(kinds []string, in io.Reader) (string, int, int) {
	var rec format.Recording
	n := 0
	out := guard(func() (err error) { rec, n, err = loadFrom(kinds, in); return })
	s.t.calls++
	if out == outHang {
		return out, 0, 0
	}
	if rec == nil {
		return out, n, 0
	}
	s.held = rec
	s.last = project(rec)
	return out, n, s.t.val(s.last)
}

func regNames(kinds []string) []string {
	out := make([]string, 0)
	for _, e := range regOf(kinds) {
		out = append(out, e.K)
	}
	return out
}

// regNamesOf lists the kinds a reader needs for what cfg wrote.
func regNamesOf(cfg Cfg) []string {
	out := make([]string, 0)
	for _, e := range cfg.Encs {
		out = append(out, e.K)
	}
	return out
}

func optWords(ws []int) (float64, bool) {
	if len(ws) != 4 {
		return 0, false
	}
	return Words{ws[0], ws[1], ws[2], ws[3]}.f64(), true
}

// stepOf is the distance between the points tried out of n: step, or such that
// there are about -step of them.
func stepOf(step, n int) int {
	if step < 0 {
		step = n/-step + 1
		if step%2 == 0 {
			step++
		}
	}
	if step < 1 {
		return 1
	}
	return step
}

func (s *session) step(op Op) bool {
	t := s.t
	src, haveSrc := s.recs[op.Src]
	switch op.Op {
	case "build":
		want := op.Rec.norm()
		wl := t.val(want)
		var rec format.Recording
		out := guard(func() error { rec = buildAs(want, op.Own, op.Del); return nil })
		t.calls++
		gl := 0
		if out == outOK {
			gl = t.val(project(rec))
			s.recs[op.H] = rec
			s.abs[op.H] = want
		}
		t.emit(E{"op": "build", "h": op.H, "wl": wl, "gl": gl, "out": out, "note": note()})
		return out == outOK

	case "slice":
		if !haveSrc {
			return false
		}
		var opts []format.SliceOption
		if b, ok := optWords(op.B); ok {
			opts = append(opts, format.BeginningOfSlice(b))
		}
		if e, ok := optWords(op.E); ok {
			opts = append(opts, format.EndOfSlice(e))
		}
		if op.Keep >= 0 {
			opts = append(opts, format.KeepBinariesInSlice(op.Keep == 1))
		}
		var rec format.Recording
		out := guard(func() error { rec = format.Slice(src, opts...); return nil })
		t.calls++
		gl := 0
		if out == outOK {
			p := project(rec)
			gl = t.val(p)
			if rec != nil {
				s.recs[op.H] = rec
				s.abs[op.H] = p
			}
		}
		b, e := op.B, op.E
		if b == nil {
			b = []int{}
		}
		if e == nil {
			e = []int{}
		}
		t.emit(E{"op": "slice", "h": op.H, "src": op.Src, "b": b, "e": e, "keep": op.Keep, "out": out, "note": note(),
			"gl": gl, "al": t.val(project(src))})
		return out == outOK && rec != nil

	case "validate":
		if !haveSrc {
			return false
		}
		out := guard(func() error {
			if op.Req < 0 {
				return format.Validate(src)
			}
			return format.Validate(src, format.RequireChronologicalCapture(op.Req == 1))
		})
		t.calls++
		t.emit(E{"op": "validate", "src": op.Src, "req": op.Req, "out": out, "note": note(), "al": t.val(project(src))})

	case "bounds":
		if !haveSrc {
			return false
		}
		var start, end, dur float64
		out := guard(func() error {
			start, end, dur = format.RecordingStart(src), format.RecordingEnd(src), format.RecordingDuration(src)
			return nil
		})
		t.calls++
		t.emit(E{"op": "bounds", "src": op.Src, "out": out, "note": note(), "start": fw(start), "end": fw(end), "dur": fw(dur),
			"diff": fw(end - start), "al": t.val(project(src))})

	case "write":
		if !haveSrc {
			return false
		}
		cfg := op.Cfg.effective()
		k := newSink()
		var w rapio.Writer
		if o := s.outs[op.W]; op.W != "" && o != nil {
			cfg, k, w = o.cfg, o.k, o.w
			k.buf.Reset()
		} else if op.W == "shared" {
			w = s.sharedWriter(cfg, k)
		} else {
			w = cfg.writer(k)
		}
		n := 0
		out := guard(func() (err error) { n, err = w.Write(src); return })
		t.calls++
		e := E{"op": "write", "src": op.Src, "f": op.F, "cfg": cfg, "out": out, "note": note(), "n": n, "len": k.buf.Len(), "par": op.W != "",
			"al": t.val(project(src)), "bytes": op.Bytes, "head": []int{}, "body": []int{}, "tail": 0, "how": "none"}
		if op.Bytes && out == outOK {
			head, body, tail, how := plain(k.buf.Bytes())
			e["head"], e["body"], e["tail"], e["how"] = ints(head), ints(body), tail, how
		}
		t.emit(e)
		if out == outOK {
			s.files[op.F] = append([]byte{}, k.buf.Bytes()...)
			s.wrote[op.F] = wrote{s.abs[op.Src], cfg}
		}
		return out != outHang

	case "load":
		file, ok := s.files[op.F]
		if !ok {
			return false
		}
		data := append(append([]byte{}, file...), bytes.Repeat([]byte{0xA5}, op.Junk)...)
		in := newSource(data, op.Del)
		out, n, gl := s.load(op.Reg, in)
		t.emit(E{"op": "load", "f": op.F, "h": op.H, "reg": regNames(op.Reg), "out": out, "note": note(), "n": n,
			"gl": gl, "used": in.pos, "junk": op.Junk})
		if op.H != "" {
			if gl == 0 {
				return false
			}
			s.recs[op.H], s.abs[op.H] = s.held, s.last
		}
		if w, ok := s.wrote[op.F]; ok && gl != 0 {
			for _, e := range measureRec(w.cfg, w.rec, s.last) {
				t.emit(e)
			}
		}
		return out != outHang

	case "cuts": // every prefix (or every step-th)
		file, ok := s.files[op.F]
		if !ok {
			return false
		}
		res := make([][]int, 0)
		step := stepOf(op.Step, len(file))
		for cut := op.At; cut < len(file); cut += step {
			out, _, gl := s.load(op.Reg, newSource(file[:cut], op.Del))
			res = append(res, []int{cut, outCode(out), gl})
			if out == outHang {
				break
			}
		}
		t.emit(E{"op": "cuts", "f": op.F, "reg": regNames(op.Reg), "len": len(file), "res": res, "note": note()})

	case "dels": // the same file through differently behaved sources
		file, ok := s.files[op.F]
		if !ok {
			return false
		}
		res := make([][]int, 0)
		dels := op.Dels
		out0, n0, gl0 := s.load(op.Reg, newSource(file, nil))
		for i := range dels {
			if dels[i].FailAt != -1 {
				dels[i].FailAt = -1
			}
			out, n, gl := s.load(op.Reg, newSource(file, &dels[i]))
			res = append(res, []int{outCode(out), n, gl})
			if out == outHang {
				break
			}
		}
		t.emit(E{"op": "dels", "f": op.F, "reg": regNames(op.Reg), "base": []int{outCode(out0), n0, gl0}, "res": res, "note": note()})

	case "srcfails": // sources that fail at each offset
		file, ok := s.files[op.F]
		if !ok {
			return false
		}
		res := make([][]int, 0)
		step := stepOf(op.Step, len(file))
		for at := op.At; at < len(file); at += step {
			d := Delivery{FailAt: at}
			if op.Del != nil {
				d = *op.Del
				d.FailAt = at
			}
			out, _, gl := s.load(op.Reg, newSource(file, &d))
			res = append(res, []int{at, outCode(out), gl})
			if out == outHang {
				break
			}
		}
		t.emit(E{"op": "srcfails", "f": op.F, "reg": regNames(op.Reg), "len": len(file), "res": res, "note": note()})

	case "binfails":
		return s.binfails(op)

	case "sinkfails": // sinks that fail at each byte, and at each write
		if !haveSrc {
			return false
		}
		cfg := op.Cfg.effective()
		full := newSink()
		fullN := 0
		fullOut := guard(func() (err error) { fullN, err = cfg.writer(full).Write(src); return })
		t.calls++
		res := make([][]int, 0)
		step := stepOf(op.Step, full.buf.Len())
		calls := stepOf(op.Step, full.calls)
		try := func(k *sink, mode, at int) bool {
			n := 0
			out := guard(func() (err error) { n, err = cfg.writer(k).Write(src); return })
			t.calls++
			if out == outHang {
				res = append(res, []int{mode, at, 3, 0, 0, 0, 1})
				return false
			}
			pre := 0
			if bytes.HasPrefix(full.buf.Bytes(), k.buf.Bytes()) {
				pre = 1
			}
			refused := 0
			if k.failed {
				refused = 1
			}
			res = append(res, []int{mode, at, outCode(out), n, k.buf.Len(), pre, refused})
			return true
		}
		ok := true
		base := try
		nth := 0
		try = func(k *sink, mode, at int) bool { k.err = nth * op.N; nth++; return base(k, mode, at) }
		for at := op.At; ok && at < full.buf.Len(); at += step {
			ok = try(&sink{cap: at, partial: true}, 0, at) && try(&sink{cap: at}, 1, at) &&
				try(&sink{cap: at, partial: true, recover: true}, 5, at) && try(&sink{cap: at, recover: true}, 6, at)
		}
		for at := 1; ok && at <= full.calls && at <= 4000; at += calls {
			ok = try(&sink{cap: -1, failCall: at}, 2, at) && try(&sink{cap: -1, failCall: at, partial: true}, 3, at) &&
				try(&sink{cap: -1, failCall: at, recover: true}, 7, at) && try(&sink{cap: -1, failCall: at, partial: true, recover: true}, 8, at)
		}
		ok = ok && try(&sink{cap: full.buf.Len()}, 4, full.buf.Len())
		t.emit(E{"op": "sinkfails", "src": op.Src, "cfg": cfg, "out": fullOut, "n": fullN, "len": full.buf.Len(), "res": res,
			"note": note(), "al": t.val(project(src))})
		return ok

	case "raw": // a file laid out by the specification
		head, body := unints(op.Head), unints(op.Body)
		file := append([]byte{}, head...)
		if len(head) > 0 && head[len(head)-1] == 1 {
			file = append(file, deflated(body)...)
		} else {
			file = append(file, body...)
		}
		if op.F != "" {
			s.files[op.F] = file
		}
		in := newSource(append(append([]byte{}, file...), bytes.Repeat([]byte{0xA5}, op.Junk)...), op.Del)
		out, n, gl := s.load(op.Reg, in)
		t.emit(E{"op": "raw", "f": op.F, "head": ints(head), "body": ints(body), "reg": regNames(op.Reg), "out": out, "note": note(),
			"n": n, "gl": gl, "used": in.pos, "len": len(file), "junk": op.Junk, "tag": op.Tag})
		return out != outHang

	case "raw1": // a version 1 file around a message the specification laid out
		body := unints(op.Body)
		file := file1(unints(op.Num), body, op.Delta)
		if op.F != "" {
			s.files[op.F] = file
		}
		in := newSource(append(append([]byte{}, file...), bytes.Repeat([]byte{0xA5}, op.Junk)...), op.Del)
		out, n, gl := s.load(op.Reg, in)
		t.emit(E{"op": "raw1", "f": op.F, "body": ints(body), "num": op.Num, "delta": op.Delta, "out": out, "note": note(),
			"n": n, "gl": gl, "used": in.pos, "len": len(file), "junk": op.Junk})
		return out != outHang

	case "muts1":
		return s.muts1(op)

	case "rewrite": // load, write what was loaded, load that
		file, ok := s.files[op.F]
		if !ok {
			return false
		}
		cfg := op.Cfg.effective()
		e := E{"op": "rewrite", "f": op.F, "cfg": cfg, "prop": op.Prop, "from": 0, "gl": 0, "n": 0, "wn": 0, "out": outOK}
		var rec format.Recording
		out := guard(func() (err error) { rec, _, err = loadFrom(op.Reg, newSource(file, nil)); return })
		t.calls++
		if out == outOK && rec != nil {
			e["from"] = t.val(project(rec))
			k := newSink()
			wn := 0
			out = guard(func() (err error) { wn, err = cfg.writer(k).Write(rec); return })
			t.calls++
			e["wn"] = wn
			if out == outOK {
				var n, gl int
				out, n, gl = s.load(regNamesOf(cfg), newSource(k.buf.Bytes(), nil))
				e["n"], e["gl"] = n, gl
			}
		}
		e["out"], e["note"] = out, note()
		t.emit(e)
		return out != outHang

	case "par":
		return s.par(op)
	case "outlet":
		cfg := op.Cfg.effective()
		k := newSink()
		s.outs[op.W] = &outlet{cfg, k, s.sharedWriter(cfg, k)}
	case "stream":
		return s.stream(op)
	case "muts":
		return s.muts(op)
	case "reject":
		return s.reject(op)
	case "nego":
		return s.nego(op)
	case "json", "jsoncuts", "trip", "bson", "csv", "cli":
		return s.tools(op)
	default:
		panic("unknown op " + op.Op)
	}
	return true
}

func inf() float64 { return math.Inf(1) }
