package main

// JSON, CSV and the command line tool.

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/format/parsing"
)

func init() {
	// metadata times must not depend on where a program runs
	if loc, err := time.LoadLocation("Africa/Monrovia"); err == nil {
		time.Local = loc
	}
}

var scratchNo int64

func scratchFile(ext string) string {
	n := atomic.AddInt64(&scratchNo, 1)
	return filepath.Join(os.Getenv("RAP_SCRATCH"), fmt.Sprintf("x%d.%s", n, ext))
}

type ran struct {
	exit   int // -1: killed or not started
	stdout []byte
}

// cli runs the tool in the scratch directory.
func (s *session) cli(stdin []byte, devfull bool, args ...string) ran {
	return s.cliFrom(bytes.NewReader(stdin), devfull, args...)
}

// cliUnreadable runs a command whose standard input can not be read.
func (s *session) cliUnreadable(args ...string) ran {
	d, err := os.Open(os.Getenv("RAP_SCRATCH"))
	if err != nil {
		return ran{-1, nil}
	}
	defer d.Close()
	return s.cliFrom(d, false, args...)
}

func (s *session) cliFrom(stdin io.Reader, devfull bool, args ...string) ran {
	s.t.calls++
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, os.Getenv("RAP_CLI"), args...)
	c.Dir = os.Getenv("RAP_SCRATCH")
	zones := []string{"UTC", "Africa/Monrovia", "Asia/Kathmandu", "America/New_York"}
	c.Env = []string{"TZ=" + zones[len(strings.Join(args, ""))%4], "PATH=" + os.Getenv("PATH"), "HOME=" + c.Dir}
	c.Stdin = stdin
	var out, errs bytes.Buffer
	c.Stdout = &out
	c.Stderr = &errs
	if devfull {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			return ran{-1, nil}
		}
		defer f.Close()
		c.Stdout = f
	}
	err := c.Run()
	setNote(errs.String())
	r := ran{0, out.Bytes()}
	if err != nil {
		r.exit = -1
		if x, ok := err.(*exec.ExitError); ok && x.Exited() {
			r.exit = x.ExitCode()
		}
	}
	// a Go program that panics exits with status 2
	if r.exit == 2 && strings.Contains(errs.String(), "goroutine ") {
		r.exit = -1
	}
	return r
}

func allKinds() []string { return []string{"event", "position", "euler", "enum", "float"} }

func (s *session) tools(op Op) bool {
	switch op.Op {
	case "json":
		return s.json(op)
	case "jsoncuts":
		return s.jsonCuts(op)
	case "trip":
		return s.trip(op)
	case "bson":
		return s.bson(op)
	case "csv":
		return s.csv(op)
	}
	return s.command(op)
}

// fromJSON reports how importing ended and the line of what it gave.
func (s *session) fromJSON(text []byte) (string, int, format.Recording) {
	var rec format.Recording
	out := guard(func() (err error) { rec, err = parsing.FromJSON(text); return })
	s.t.calls++
	if out == outHang || rec == nil {
		return out, 0, nil
	}
	return out, s.t.val(project(rec)), rec
}

func (s *session) json(op Op) bool {
	t := s.t
	text := docText(*op.Doc, op.Seed)
	cfg := op.Cfg.effective()
	out, gl, rec := s.fromJSON(text)
	e := E{"op": "json", "doc": op.Doc.norm(), "mode": op.Mode, "cfg": cfg, "out": out, "note": note(), "gl": gl,
		"wout": outOK, "wn": 0, "n": 0, "wgl": 0, "exit": 0, "clen": 0, "cgl": 0, "tail": 0, "kept": false, "made": false}
	if out == outHang {
		t.emit(e)
		return false
	}
	if out == outOK && rec != nil {
		k := newSink()
		wn := 0
		wout := guard(func() (err error) { wn, err = cfg.writer(k).Write(rec); return })
		t.calls++
		e["wout"], e["wn"] = wout, wn
		if wout == outOK {
			e["wout"], e["n"], e["wgl"] = s.load3(cfg, k.buf.Bytes())
		}
	}
	if op.Mode > 0 {
		in, dst := scratchFile("json"), scratchFile("rap")
		os.WriteFile(in, text, 0o600)
		old := bytes.Repeat([]byte("what was there before"), 2000)
		if op.Mode == 11 {
			dst, old = in, text
		} else if op.Mode == 2 || op.Mode >= 8 {
			os.WriteFile(dst, old, 0o600)
		}
		var r ran
		switch op.Mode {
		case 1:
			r = s.cli(nil, false, "from-json", "-i", in, "-o", dst)
		case 2:
			r = s.cli(nil, false, "from-json", "--in", in, "--out", dst)
		case 3:
			r = s.cli(text, false, "from-json")
		case 4:
			r = s.cli(nil, false, "from-json", "-i", in)
		case 6:
			r = s.cli(text, true, "from-json")
		case 11: // the output takes the place of the input
			r = s.cli(nil, false, "from-json", "-i", in, "-o", in)
		case 8: // input that is not there, or can not be read
			r = s.cli(text, false, "from-json", "-i", in+"x", "-o", dst)
		case 9:
			r = s.cli(text, false, "from-json", "-i", os.Getenv("RAP_SCRATCH"), "-o", dst)
		case 10:
			r = s.cliUnreadable("from-json", "-o", dst)
		case 7: // there is no such directory
			r = s.cli(text, false, "from-json", "-o", filepath.Join(dst, "x.rap"))
		default:
			r = s.cli(text, false, "from-json", "-o", dst)
		}
		data, err := os.ReadFile(dst)
		e["made"] = err == nil
		e["kept"] = (op.Mode == 2 || op.Mode >= 8) && err == nil && bytes.Equal(data, old)
		if op.Mode == 3 || op.Mode == 4 {
			data = r.stdout
		}
		e["exit"], e["clen"] = r.exit, len(data)
		e["cnote"] = note()
		if len(data) > 0 {
			_, _, e["cgl"] = s.load(allKinds(), newSource(data, nil))
			_, _, e["tail"], _ = plain(data)
		}
		os.Remove(in)
		os.Remove(dst)
	}
	t.emit(e)
	return true
}

func (s *session) load3(cfg Cfg, file []byte) (string, int, int) {
	return s.load(regNamesOf(cfg), newSource(file, nil))
}

// jsonCuts imports every strict prefix of a document.
func (s *session) jsonCuts(op Op) bool {
	text := docText(*op.Doc, op.Seed)
	res := make([][]int, 0)
	for cut := 0; cut < len(text); cut++ {
		out, gl, _ := s.fromJSON(text[:cut])
		res = append(res, []int{cut, outCode(out), gl})
		if out == outHang {
			break
		}
	}
	// and the document with something behind it
	for i, junk := range []string{"}", "{}", ",", "x", "\x00", " null"} {
		out, gl, _ := s.fromJSON(append(append([]byte{}, text...), junk...))
		res = append(res, []int{len(text) + i + 1, outCode(out), gl})
	}
	s.t.emit(E{"op": "jsoncuts", "len": len(text), "res": res, "note": note()})
	return true
}

func blockRec(m []KV) Rec { return Rec{Md: m}.norm() }

// trip takes a metadata block to JSON and back.
func (s *session) trip(op Op) bool {
	t := s.t
	in := blockRec(op.Md)
	e := E{"op": "trip", "md": t.val(in), "out": outOK, "doc": Tree{J: "null"}.norm(), "uout": outOK, "gl": 0, "sl": 0, "souts": []interface{}{}}
	block := buildBlock(in.Md)
	var text []byte
	out := guard(func() (err error) { text, err = metadata.NewMetadataProperty(block).MarshalJSON(); return })
	t.calls++
	e["out"], e["note"] = out, note()
	if out == outOK {
		e["doc"] = treeOf(text)
		var back metadata.MetadataProperty
		e["uout"] = guard(func() (err error) { back, err = metadata.UnmarshalNewMetadataProperty(text); return })
		t.calls++
		if e["uout"] == outOK {
			var got []KV
			if guard(func() error { got = projBlock(back.Block()); return nil }) != outOK {
				got = []KV{{hx("panic"), Prop{C: -1, K: []KV{}}}}
			}
			e["gl"] = t.val(blockRec(got))
		}
	}
	// each property through the functions of its own type
	singles := make([]KV, 0)
	outs := make([]interface{}, 0)
	for _, kv := range in.Md {
		p := buildProp(kv.Val)
		var q metadata.Property
		o := guard(func() error {
			b, err := p.(interface{ MarshalJSON() ([]byte, error) }).MarshalJSON()
			if err != nil {
				return err
			}
			q, err = typedFromJSON(kv.Val.C, b)
			return err
		})
		t.calls++
		outs = append(outs, []interface{}{kv.Key, outCode(o)})
		if o == outOK {
			var pp Prop
			if guard(func() error { pp = projProp(q); return nil }) != outOK {
				pp = Prop{C: -1, K: []KV{}}
			}
			singles = append(singles, KV{kv.Key, pp})
		}
	}
	e["souts"], e["sl"] = outs, t.val(blockRec(singles))
	t.emit(e)
	return true
}

// bson exports a metadata block as BSON.
func (s *session) bson(op Op) bool {
	in := blockRec(op.Md)
	var data []byte
	out := guard(func() (err error) {
		data, err = metadata.NewMetadataProperty(buildBlock(in.Md)).MarshalBSON()
		return
	})
	s.t.calls++
	if out != outOK {
		data = nil
	}
	s.t.emit(E{"op": "bson", "md": s.t.val(in), "out": out, "note": note(), "data": ints(data)})
	return out != outHang
}

func typedFromJSON(code int, b []byte) (metadata.Property, error) {
	switch code {
	case cStr:
		var p metadata.StringProperty
		err := p.UnmarshalJSON(b)
		return p, err
	case cInt:
		return metadata.UnmarshalNewInt32Property(b)
	case cF32:
		return metadata.UnmarshalNewFloat32Property(b)
	case cTrue, cFalse:
		return metadata.UnmarshalNewBoolProperty(b)
	case cByte:
		return metadata.UnmarshalNewByteProperty(b)
	case cVec2:
		return metadata.UnmarshalNewVector2Property(b)
	case cVec3:
		return metadata.UnmarshalNewVector3Property(b)
	case cBlock:
		return metadata.UnmarshalNewMetadataProperty(b)
	case cTime:
		return metadata.UnmarshalNewTimeProperty(b)
	case cBools, cBytes:
		var p metadata.ArrayPropertyRaw
		err := p.UnmarshalJSON(b)
		return p, err
	}
	var p metadata.ArrayProperty
	err := p.UnmarshalJSON(b)
	return p, err
}

// ---------------------------------------------------------------------------- CSV

// Cell is text, a number, or text that is no number.
type Cell struct {
	K string `json:"k"`
	S string `json:"s"`
	W Words  `json:"w"`
}

func csvField(text string, r *rand.Rand) string {
	if strings.ContainsAny(text, "\",\n\r") || r.Intn(6) == 0 {
		return "\"" + strings.ReplaceAll(text, "\"", "\"\"") + "\""
	}
	return text
}

func csvNum(f float64, r *rand.Rand) string {
	var s string
	switch {
	case math.IsNaN(f):
		s = []string{"NaN", "nan"}[r.Intn(2)]
	case math.IsInf(f, 0):
		s = strconv.FormatFloat(f, 'g', -1, 64)
		if r.Intn(2) == 0 {
			s = strings.Replace(s, "Inf", "infinity", 1)
		}
	default:
		s = renderNum(f, r)
		if f >= 0 && !math.Signbit(f) && r.Intn(5) == 0 {
			s = "+" + s
		}
	}
	pad := []string{"", "", "", " ", "  ", "\t"}
	return pad[r.Intn(6)] + s + pad[r.Intn(6)]
}

func csvText(op Op) []byte {
	r := rand.New(rand.NewSource(op.Seed))
	eol := []string{"\n", "\n", "\r\n"}[r.Intn(3)]
	var lines []string
	if len(op.CHead) > 0 {
		pad := []string{"", "", "", " ", "   "}
		fields := make([]string, len(op.CHead))
		for i, h := range op.CHead {
			fields[i] = csvField(pad[r.Intn(5)]+unhx(h)+pad[r.Intn(5)], r)
		}
		lines = append(lines, strings.Join(fields, ","))
	}
	for _, row := range op.Rows {
		fields := make([]string, len(row))
		for i, c := range row {
			if c.K == "n" {
				fields[i] = csvField(csvNum(c.W.f64(), r), r)
			} else {
				fields[i] = csvField(unhx(c.S), r)
			}
		}
		lines = append(lines, strings.Join(fields, ","))
		if r.Intn(10) == 0 {
			lines = append(lines, "") // blank lines are no rows
		}
	}
	text := strings.Join(lines, eol)
	if op.What == "quote" {
		return []byte(text + eol + "\"unclosed,1,2,3,4,5" + eol)
	}
	if len(lines) > 0 && r.Intn(3) > 0 {
		text += eol
	}
	return []byte(text)
}

func (s *session) csv(op Op) bool {
	in := scratchFile("csv")
	os.WriteFile(in, csvText(op), 0o600)
	from := in
	switch op.ModeName {
	case "missing":
		from = in + "x"
	case "dir":
		from = os.Getenv("RAP_SCRATCH")
	}
	r := s.cli(nil, op.ModeName == "devfull", "from-csv", "-f", from)
	os.Remove(in)
	rows := op.Rows
	if rows == nil {
		rows = [][]Cell{}
	}
	head := op.CHead
	if head == nil {
		head = []string{}
	}
	e := E{"op": "csv", "head": head, "rows": rows, "what": op.What, "mode": op.ModeName, "exit": r.exit, "note": note(), "len": len(r.stdout), "gl": 0, "tail": 0}
	if len(r.stdout) > 0 {
		_, _, e["gl"] = s.load(allKinds(), newSource(r.stdout, nil))
		_, _, e["tail"], _ = plain(r.stdout)
	}
	s.t.emit(e)
	return true
}

// ----------------------------------------------------------------------- commands

func (s *session) command(op Op) bool {
	file, ok := s.files[op.F]
	if !ok {
		return false
	}
	t := s.t
	data := file
	cut := -1
	if op.At >= 0 {
		cut = len(file) * op.At / 1000
		data = file[:cut]
	}
	// a file may be followed by anything
	if op.At < 0 && op.Pad > len(file) {
		data = append(append([]byte{}, file...), make([]byte, op.Pad-len(file))...)
	}
	lout, _, lgl := s.load([]string{"load"}, newSource(data, nil))
	base := s.last
	in := scratchFile("rap")
	from := in
	gone := op.At <= -2
	if !gone {
		os.WriteFile(in, data, 0o600)
	}
	if op.At == -3 { // -2: there is no such file; -3: it can not be read
		from = os.Getenv("RAP_SCRATCH")
	}
	var r ran
	if op.At == -3 && op.ModeName == "stdin" {
		r = s.cliUnreadable(op.What)
	} else if op.ModeName == "stdin" && !gone {
		r = s.cli(data, false, op.What)
	} else {
		r = s.cli(nil, op.ModeName == "devfull", op.What, "-f", from)
	}
	cnote := note()
	left, err := os.ReadFile(in)
	same := gone || err == nil && bytes.Equal(left, data)
	os.Remove(in)
	if gone {
		lout, lgl = outErr, 0
	}
	e := E{"op": "cli", "what": op.What, "f": op.F, "cut": cut, "len": len(file), "mode": op.ModeName, "exit": r.exit, "note": cnote,
		"lout": lout, "lgl": lgl, "olen": len(r.stdout), "ogl": 0, "tail": 0, "size": len(data), "text": "", "same": same,
		"doc": Tree{J: "null"}.norm()}
	var after Rec
	if len(r.stdout) > 0 {
		switch op.What {
		case "upgrade":
			_, _, e["ogl"] = s.load(allKinds(), newSource(r.stdout, nil))
			after = s.last
			_, _, e["tail"], _ = plain(r.stdout)
		case "to-json":
			e["doc"] = treeOf(r.stdout)
		default:
			e["text"] = hx(string(r.stdout))
		}
	}
	t.emit(e)
	if op.What == "upgrade" && lgl != 0 && e["ogl"] != 0 {
		cfg := Cfg{Encs: []Enc{{"event", 0}, {"position", 3}, {"euler", 2}, {"enum", 0}}, TT: 2, Comp: true}
		for _, m := range measureRec(cfg, base, after) {
			t.emit(m)
		}
	}
	return true
}
