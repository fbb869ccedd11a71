package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"time"
)

func jsonMarshal(v interface{}) ([]byte, error) {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	err := e.Encode(v)
	return bytes.TrimRight(b.Bytes(), "\n"), err
}
func jsonUnmarshal(b []byte, v interface{}) error { return json.Unmarshal(b, v) }

// E is one event of a trace.
type E map[string]interface{}

// Tracer writes one JSON object per line.  Recordings are written once, as
// "val" events, and referred to by their line.
type Tracer struct {
	w     *bufio.Writer
	f     *os.File
	line  int
	vals  map[string]int
	calls int // calls into the code under test
	ops   map[string]int
}

func newTracer(path string) *Tracer {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	return &Tracer{w: bufio.NewWriterSize(f, 1<<20), f: f, vals: map[string]int{}, ops: map[string]int{}}
}

func (t *Tracer) emit(e E) int {
	op, _ := e["op"].(string)
	if out, ok := e["out"].(string); ok {
		op += " " + out
	}
	t.ops[op]++
	b, err := jsonMarshal(e)
	if err != nil {
		panic(err)
	}
	t.w.Write(b)
	t.w.WriteByte('\n')
	t.line++
	return t.line
}

func (t *Tracer) val(r Rec) int {
	b, err := jsonMarshal(r)
	if err != nil {
		panic(err)
	}
	if l, ok := t.vals[string(b)]; ok {
		return l
	}
	l := t.emit(E{"op": "val", "got": json.RawMessage(b)})
	t.vals[string(b)] = l
	return l
}

func (t *Tracer) close() {
	t.w.Flush()
	t.f.Close()
}

const (
	outOK    = "ok"
	outErr   = "err"
	outPanic = "panic"
	outHang  = "hang"
)

var noteMu sync.Mutex
var noteText string

func setNote(s string) { noteMu.Lock(); noteText = s; noteMu.Unlock() }

// guard runs f, which reports an error, and says how it ended.
func guard(f func() error) string {
	out, why := guardNote(f)
	setNote(why)
	return out
}

func guardNote(f func() error) (string, string) {
	type end struct{ out, note string }
	done := make(chan end, 1)
	go func() {
		e := end{out: outPanic}
		defer func() {
			if e.out == outPanic {
				e.note = fmt.Sprint(recover())
			}
			done <- e
		}()
		if err := f(); err != nil {
			e = end{outErr, err.Error()}
		} else {
			e = end{outOK, ""}
		}
	}()
	select {
	case e := <-done:
		return e.out, plainText(e.note)
	case <-time.After(30 * time.Second):
		hangs.Add(1)
		return outHang, "no answer within 30 s"
	}
}

// Calls without an answer keep their processor, and a few of them say what
// there is to say: after maxHangs of them no further scenario is begun.
const maxHangs = 4

var hangs atomic.Int32

func tooManyHangs() bool { return hangs.Load() >= maxHangs }

// note is the text of the last failure, cut to plain ASCII.
func note() string {
	noteMu.Lock()
	lastNote := noteText
	noteMu.Unlock()
	return plainText(lastNote)
}

func plainText(lastNote string) string {
	out := make([]byte, 0, 120)
	for i := 0; i < len(lastNote) && len(out) < 120; i++ {
		c := lastNote[i]
		if c < 32 || c > 126 || c == '"' || c == '\\' {
			c = '.'
		}
		out = append(out, c)
	}
	return string(out)
}
