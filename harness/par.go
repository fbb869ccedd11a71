package main

// Several operations at the same time, on the same recordings and with the same
// encoder values: running freely, or taking turns at every call they make back
// into what they were given (recordings, collections, binaries, sources, sinks
// and encoders), in an order the specification chose.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"sync"
	"time"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/collection/enum"
	"github.com/recolude/rap/format/encoding"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/format/parsing"
)

// Job is one of the operations.
type Job struct {
	What  string    `json:"what"` // write load slice validate bounds read
	Src   string    `json:"src"`
	F     string    `json:"f"`
	H     string    `json:"h"`
	B     []int     `json:"b"`
	E     []int     `json:"e"`
	Keep  int       `json:"keep"`
	Req   int       `json:"req"`
	Cfg   *Cfg      `json:"cfg"`
	Del   *Delivery `json:"del"`
	Bytes bool      `json:"bytes"`
}

// ------------------------------------------------------------------- turns

// turns lets one job run at a time; a job hands the turn back at every pass.
type turns struct {
	resume []chan struct{}
	event  chan turnEvent
	free   chan struct{} // closed: everybody runs
	over   []chan struct{}
}
type turnEvent struct {
	job  int
	done bool
}

func newTurns(n int) *turns {
	t := &turns{event: make(chan turnEvent), free: make(chan struct{})}
	for i := 0; i < n; i++ {
		t.resume = append(t.resume, make(chan struct{}))
		t.over = append(t.over, make(chan struct{}))
	}
	return t
}

func (t *turns) pass(job int) {
	if t == nil {
		return
	}
	select {
	case <-t.free:
		return
	case <-t.over[job]:
		return
	default:
	}
	select {
	case t.event <- turnEvent{job, false}:
	case <-t.free:
		return
	}
	select {
	case <-t.resume[job]:
	case <-t.free:
	}
}

// run starts all jobs and hands out turns as sched says: pairs of a job and a
// number of passes; afterwards in rotation.  A job that does not come back
// with its turn (it may wait for a lock another one holds) ends the taking of
// turns.  It tells how many turns were taken.
func (t *turns) run(jobs []func(), sched [][]int) int {
	n := len(jobs)
	left := n
	live := make([]bool, n)
	for i := range jobs {
		live[i] = true
		go func(i int) {
			defer func() {
				close(t.over[i])
				select {
				case t.event <- turnEvent{i, true}:
				case <-t.free:
				}
			}()
			select {
			case <-t.resume[i]:
			case <-t.free:
			}
			jobs[i]()
		}(i)
	}
	taken := 0
	turn := func(i int) bool {
		t.resume[i] <- struct{}{}
		taken++
		select {
		case e := <-t.event:
			if e.done {
				live[e.job] = false
				left--
			}
			return true
		case <-time.After(3 * time.Second):
			return false
		}
	}
	give := func(i, passes int) bool {
		for k := 0; k < passes && live[i]; k++ {
			if !turn(i) {
				return false
			}
		}
		return true
	}
	ok := true
	for _, s := range sched {
		if ok {
			ok = give((s[0]-1)%n, s[1])
		}
	}
	for ok && left > 0 {
		for i := 0; i < n && ok; i++ {
			ok = give(i, 1)
		}
	}
	close(t.free)
	for i := range jobs {
		select {
		case <-t.over[i]:
		case <-time.After(30 * time.Second):
		}
	}
	return taken
}

// ------------------------------------------------- what hands the turn back

type turnRec struct {
	format.Recording
	t *turns
	j int
}

func (r turnRec) ID() string   { r.t.pass(r.j); return r.Recording.ID() }
func (r turnRec) Name() string { r.t.pass(r.j); return r.Recording.Name() }
func (r turnRec) Metadata() metadata.Block {
	r.t.pass(r.j)
	return r.Recording.Metadata()
}
func (r turnRec) CaptureCollections() []format.CaptureCollection {
	r.t.pass(r.j)
	in := r.Recording.CaptureCollections()
	out := make([]format.CaptureCollection, len(in))
	for i, c := range in {
		if _, cast := c.(enum.Collection); cast {
			out[i] = c // its encoder asks for the very type
		} else {
			out[i] = turnCol{c, r.t, r.j}
		}
	}
	return out
}
func (r turnRec) Recordings() []format.Recording {
	r.t.pass(r.j)
	in := r.Recording.Recordings()
	out := make([]format.Recording, len(in))
	for i, k := range in {
		out[i] = turnRec{k, r.t, r.j}
	}
	return out
}
func (r turnRec) Binaries() []format.Binary {
	r.t.pass(r.j)
	in := r.Recording.Binaries()
	out := make([]format.Binary, len(in))
	for i, b := range in {
		out[i] = turnBin{b, r.t, r.j}
	}
	return out
}
func (r turnRec) BinaryReferences() []format.BinaryReference {
	r.t.pass(r.j)
	return r.Recording.BinaryReferences()
}

type turnCol struct {
	format.CaptureCollection
	t *turns
	j int
}

func (c turnCol) Name() string { c.t.pass(c.j); return c.CaptureCollection.Name() }
func (c turnCol) Captures() []format.Capture {
	c.t.pass(c.j)
	return c.CaptureCollection.Captures()
}
func (c turnCol) Signature() string { c.t.pass(c.j); return c.CaptureCollection.Signature() }
func (c turnCol) Length() int       { c.t.pass(c.j); return c.CaptureCollection.Length() }
func (c turnCol) CaptureAt(i int) format.Capture {
	c.t.pass(c.j)
	return c.CaptureCollection.CaptureAt(i)
}
func (c turnCol) Slice(b, e float64) format.CaptureCollection {
	c.t.pass(c.j)
	return c.CaptureCollection.Slice(b, e)
}
func (c turnCol) Start() float64 { c.t.pass(c.j); return c.CaptureCollection.Start() }
func (c turnCol) End() float64   { c.t.pass(c.j); return c.CaptureCollection.End() }

type turnBin struct {
	format.Binary
	t *turns
	j int
}

func (b turnBin) Data() io.Reader { return &turnReader{b.Binary.Data(), b.t, b.j, 1} }
func (b turnBin) Size() uint64    { b.t.pass(b.j); return b.Binary.Size() }

type turnReader struct {
	in io.Reader
	t  *turns
	j  int
	n  int
}

func (r *turnReader) Read(p []byte) (int, error) {
	r.t.pass(r.j)
	if len(p) > r.n {
		p = p[:r.n]
		r.n = r.n%7 + 1
	}
	return r.in.Read(p)
}

type turnWriter struct {
	io.Writer
	t *turns
	j int
}

func (w turnWriter) Write(p []byte) (int, error) {
	w.t.pass(w.j)
	n, err := w.Writer.Write(p)
	w.t.pass(w.j)
	return n, err
}

type turnEnc struct {
	encoding.Encoder
	t *turns
	j int
}

func (e turnEnc) Accepts(c format.CaptureCollection) bool {
	e.t.pass(e.j)
	return e.Encoder.Accepts(c)
}
func (e turnEnc) Encode(cs []format.CaptureCollection) ([]byte, [][]byte, error) {
	e.t.pass(e.j)
	h, d, err := e.Encoder.Encode(cs)
	e.t.pass(e.j)
	return h, d, err
}
func (e turnEnc) Decode(n string, h, d []byte, ts []float64) (format.CaptureCollection, error) {
	e.t.pass(e.j)
	c, err := e.Encoder.Decode(n, h, d, ts)
	e.t.pass(e.j)
	return c, err
}

// ---------------------------------------------------------------- the jobs

type jobDone struct {
	out, note       string
	n, used         int
	rec             format.Recording
	sink            *sink
	start, end, dur float64
	text            string
}

const importDoc = `{"id":"a","name":"b","metadata":{"k":1,"v":{"x":1,"y":2}},"recordings":[{"id":"c","name":"d","collections":[
 {"name":"p","type":"recolude.position","captures":[{"time":1,"data":{"x":1,"y":2,"z":3}},{"time":2,"data":{"x":4,"y":5,"z":6}}]},
 {"name":"q","type":"recolude.event","captures":[{"time":1,"data":{"name":"n","metadata":{"a":true,"b":[1,2]}}}]},
 {"name":"e","type":"recolude.enum","captures":[{"time":1,"data":"x"},{"time":2,"data":"y"},{"time":3,"data":"x"}]}]}]}`

// shared gives the encoder values for a list: the same ones every time.
func (s *session) shared(es []Enc) []encoding.Encoder {
	key := fmt.Sprint(es)
	if _, ok := s.encs[key]; !ok {
		s.encs[key] = encodersOf(es)
	}
	return append([]encoding.Encoder{}, s.encs[key]...)
}

// doJob runs one job as number j of those taking turns (t nil: without turns).
func (s *session) doJob(job Job, encs []encoding.Encoder, t *turns, j int) jobDone {
	d := jobDone{sink: newSink()}
	src := s.recs[job.Src]
	if t != nil {
		if src != nil {
			src = turnRec{src, t, j}
		}
		for i := range encs {
			encs[i] = turnEnc{encs[i], t, j}
		}
	}
	d.out, d.note = guardNote(func() (err error) {
		switch job.What {
		case "write":
			cfg := job.Cfg.effective()
			out := io.Writer(d.sink)
			if t != nil {
				out = turnWriter{out, t, j}
			}
			if cfg.Def {
				d.n, err = rapio.NewRecoludeWriter(out).Write(src)
			} else {
				d.n, err = rapio.NewWriter(encs, cfg.Comp, out, rapio.TimeStorageTechnique(cfg.TT)).Write(src)
			}
		case "load":
			in := newSource(s.files[job.F], job.Del)
			from := io.Reader(in)
			if t != nil {
				from = &turnReader{in, t, j, 1}
			}
			if job.Cfg.Def {
				d.rec, d.n, err = rapio.Load(from)
			} else {
				d.rec, d.n, err = rapio.NewReader(encs, from).Read()
			}
			d.used = in.pos
		case "slice":
			var opts []format.SliceOption
			if b, ok := optWords(job.B); ok {
				opts = append(opts, format.BeginningOfSlice(b))
			}
			if e, ok := optWords(job.E); ok {
				opts = append(opts, format.EndOfSlice(e))
			}
			if job.Keep >= 0 {
				opts = append(opts, format.KeepBinariesInSlice(job.Keep == 1))
			}
			d.rec = format.Slice(src, opts...)
		case "validate":
			if job.Req < 0 {
				err = format.Validate(src)
			} else {
				err = format.Validate(src, format.RequireChronologicalCapture(job.Req == 1))
			}
		case "export":
			var b []byte
			if b, err = metadata.NewMetadataProperty(src.Metadata()).MarshalJSON(); err == nil {
				var v interface{}
				if err = json.Unmarshal(b, &v); err == nil {
					b, err = json.Marshal(v)
				}
			}
			d.text = string(b)
		case "import":
			d.rec, err = parsing.FromJSON([]byte(importDoc))
		case "bounds":
			d.start, d.end, d.dur = format.RecordingStart(src), format.RecordingEnd(src), format.RecordingDuration(src)
		default:
			panic("unknown job " + job.What)
		}
		return
	})
	return d
}

// result is what a job gave, as text: two runs of it must agree.
func (s *session) result(job Job, d jobDone) string {
	text := fmt.Sprint(job.What, " ", d.out)
	switch job.What {
	case "write":
		if !job.Cfg.Comp && !job.Cfg.Def {
			text += fmt.Sprint(" ", d.n, d.sink.buf.Len())
		}
		if d.out == outOK {
			rec, n, err := loadWith(job.Cfg.effective(), d.sink.buf.Bytes())
			text += fmt.Sprint(" loads ", n == d.n, err == nil)
			if rec != nil {
				text += fmt.Sprint(" as ", s.t.val(project(rec)))
			}
		}
	case "export":
		text += " " + hx(d.text)
	case "import":
		if d.rec != nil {
			text += fmt.Sprint(" ", s.t.val(project(d.rec)))
		}
	case "load":
		text += fmt.Sprint(" ", d.n, d.used)
		fallthrough
	case "slice":
		if d.rec != nil {
			text += fmt.Sprint(" ", s.t.val(project(d.rec)))
		}
	case "bounds":
		text += fmt.Sprint(" ", fw(d.start), fw(d.end), fw(d.dur))
	}
	return text
}

// loadWith loads with encoders of its own.
func loadWith(cfg Cfg, file []byte) (rec format.Recording, n int, err error) {
	guard(func() error {
		if cfg.Def {
			rec, n, err = rapio.Load(bytes.NewReader(file))
		} else {
			rec, n, err = rapio.NewReader(encodersOf(cfg.Encs), bytes.NewReader(file)).Read()
		}
		return err
	})
	return
}

func (s *session) par(op Op) bool {
	t := s.t
	for _, job := range op.Jobs {
		if _, ok := s.recs[job.Src]; !ok && job.What != "load" && job.What != "import" {
			return true // an earlier step has failed (and been reported)
		}
		if _, ok := s.files[job.F]; !ok && job.What == "load" {
			return true
		}
	}
	before := raceLog()
	n := len(op.Jobs)
	alone, together := make([]string, n), make([]string, n)
	done := make([]jobDone, n)
	run := func(i int, tn *turns) {
		cfg := Cfg{}
		if op.Jobs[i].Cfg != nil {
			cfg = op.Jobs[i].Cfg.effective()
		}
		done[i] = s.doJob(op.Jobs[i], s.shared(cfg.Encs), tn, i)
	}
	for i := range op.Jobs {
		run(i, nil)
		t.calls++
		alone[i] = s.result(op.Jobs[i], done[i])
	}
	turnsTaken := 0
	if op.Mode == 0 {
		var start, end sync.WaitGroup
		start.Add(1)
		for i := range op.Jobs {
			cfg := Cfg{}
			if op.Jobs[i].Cfg != nil {
				cfg = op.Jobs[i].Cfg.effective()
			}
			encs := s.shared(cfg.Encs)
			end.Add(1)
			go func(i int) {
				defer end.Done()
				start.Wait()
				done[i] = s.doJob(op.Jobs[i], encs, nil, i)
			}(i)
		}
		start.Done()
		end.Wait()
	} else {
		tn := newTurns(n)
		jobs := make([]func(), n)
		for i := range op.Jobs {
			cfg := Cfg{}
			if op.Jobs[i].Cfg != nil {
				cfg = op.Jobs[i].Cfg.effective()
			}
			encs := s.shared(cfg.Encs)
			i := i
			jobs[i] = func() { done[i] = s.doJob(op.Jobs[i], encs, tn, i) }
		}
		turnsTaken = tn.run(jobs, op.Sched)
	}
	t.calls += n
	hung := false
	for i, job := range op.Jobs {
		together[i] = s.result(job, done[i])
		s.jobEvent(job, done[i])
		hung = hung || done[i].out == outHang
	}
	if hung {
		hangs.Add(1)
	}
	names := make([]string, n)
	for i := range names {
		names[i] = op.Jobs[i].What
	}
	t.emit(E{"op": "together", "mode": op.Mode, "jobs": names, "turns": turnsTaken, "alone": alone, "res": together,
		"races": raceLog() - before})
	return !hung
}

// jobEvent reports what a job gave as the step it is.
func (s *session) jobEvent(job Job, d jobDone) {
	t := s.t
	if job.What == "import" {
		return
	}
	e := E{"op": job.What, "par": true, "out": d.out, "note": d.note, "n": d.n}
	src := s.recs[job.Src]
	if job.What != "load" {
		e["src"] = job.Src
		e["al"] = t.val(project(src))
	}
	gl := 0
	if d.rec != nil {
		s.held, s.last = d.rec, project(d.rec)
		gl = t.val(s.last)
	}
	b, x := job.B, job.E
	if b == nil {
		b = []int{}
	}
	if x == nil {
		x = []int{}
	}
	switch job.What {
	case "write":
		cfg := job.Cfg.effective()
		e["f"], e["cfg"], e["len"], e["bytes"] = job.F, cfg, d.sink.buf.Len(), job.Bytes
		e["head"], e["body"], e["tail"], e["how"] = []int{}, []int{}, 0, "none"
		if job.Bytes && d.out == outOK {
			head, body, tail, how := plain(d.sink.buf.Bytes())
			e["head"], e["body"], e["tail"], e["how"] = ints(head), ints(body), tail, how
		}
		if d.out == outOK {
			s.files[job.F] = append([]byte{}, d.sink.buf.Bytes()...)
			s.wrote[job.F] = wrote{s.abs[job.Src], cfg}
		}
	case "load":
		e["f"], e["h"], e["gl"], e["used"], e["junk"] = job.F, job.H, gl, d.used, 0
		e["reg"] = regNamesOf(job.Cfg.effective())
		if job.H != "" && gl != 0 {
			s.recs[job.H], s.abs[job.H] = s.held, s.last
		}
	case "slice":
		e["h"], e["b"], e["e"], e["keep"], e["gl"] = job.H, b, x, job.Keep, gl
		if d.out == outOK && d.rec != nil {
			s.recs[job.H], s.abs[job.H] = d.rec, s.last
		}
	case "validate":
		e["req"] = job.Req
	case "bounds":
		e["start"], e["end"], e["dur"], e["diff"] = fw(d.start), fw(d.end), fw(d.dur), fw(d.end-d.start)
	}
	t.emit(e)
	if w, ok := s.wrote[job.F]; ok && job.What == "load" && gl != 0 {
		for _, m := range measureRec(w.cfg, w.rec, s.last) {
			t.emit(m)
		}
	}
}

// raceLog is the length of what the race detector has reported so far (when
// this is built with it; its reports go to RAP_RACES.<pid>).
func raceLog() int {
	path := os.Getenv("RAP_RACES")
	if path == "" {
		return 0
	}
	st, err := os.Stat(fmt.Sprintf("%s.%d", path, os.Getpid()))
	if err != nil {
		return 0
	}
	return int(st.Size())
}

// ------------------------------------------------- one writer, one source, often

// outlet is a writer that writes one recording after the other.
type outlet struct {
	cfg Cfg
	k   *sink
	w   rapio.Writer
}

func (s *session) sharedWriter(cfg Cfg, k io.Writer) rapio.Writer {
	if cfg.Def {
		return rapio.NewRecoludeWriter(k)
	}
	return rapio.NewWriter(s.shared(cfg.Encs), cfg.Comp, k, rapio.TimeStorageTechnique(cfg.TT))
}

// stream loads files that follow each other in one source, with one reader or
// with one for each, all with the same encoders.  What a compressed file needs
// of the source is not defined, so each of those gets a source of its own.
func (s *session) stream(op Op) bool {
	var all []byte
	for _, f := range op.Fs {
		file, ok := s.files[f]
		if !ok || op.One && (len(file) < 1 || s.wrote[f].cfg.Comp) {
			return true
		}
		all = append(all, file...)
	}
	encs := s.shared(regOf(op.Reg))
	in := newSource(all, op.Del)
	reader := rapio.NewReader(encs, in)
	for _, f := range op.Fs {
		from := in
		if !op.One {
			from = newSource(s.files[f], op.Del)
			reader = rapio.NewReader(encs, from)
		}
		before := from.pos
		var rec format.Recording
		n := 0
		out := guard(func() (err error) { rec, n, err = reader.Read(); return })
		s.t.calls++
		gl := 0
		if rec != nil {
			s.last = project(rec)
			gl = s.t.val(s.last)
		}
		s.t.emit(E{"op": "load", "f": f, "h": "", "reg": regNames(op.Reg), "out": out, "note": note(), "n": n,
			"gl": gl, "used": from.pos - before, "junk": 0, "par": true})
		if out != outOK {
			return out != outHang
		}
	}
	return true
}
