package main

// JSON documents as trees, in both directions.

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// Tree is a JSON value.
type Tree struct {
	J string `json:"j"`
	S string `json:"s"`
	W Words  `json:"w"`
	T bool   `json:"t"`
	K []TKV  `json:"k"`
}

// TKV is a key (hex; "" in arrays) and a value.
type TKV struct {
	Key string
	Val Tree
}

func (kv TKV) MarshalJSON() ([]byte, error) { return jsonMarshal([]interface{}{kv.Key, kv.Val}) }
func (kv *TKV) UnmarshalJSON(b []byte) error {
	return jsonUnmarshal(b, &[]interface{}{&kv.Key, &kv.Val})
}

func (t Tree) norm() Tree {
	k := make([]TKV, len(t.K))
	for i, kv := range t.K {
		k[i] = TKV{kv.Key, kv.Val.norm()}
	}
	t.K = k
	return t
}

// ------------------------------------------------------------------------ to text

func renderNum(f float64, r *rand.Rand) string {
	abs := math.Abs(f)
	var s string
	switch n := r.Intn(6); {
	case n == 0 && abs < 1e18 && (abs > 1e-6 || abs == 0):
		s = strconv.FormatFloat(f, 'f', -1, 64)
	case n == 1:
		s = strconv.FormatFloat(f, 'e', -1, 64)
	case n == 2:
		s = strings.Replace(strconv.FormatFloat(f, 'E', -1, 64), "E+0", "E", 1)
	case n == 3 && f == math.Trunc(f) && abs < 1e15:
		s = strconv.FormatFloat(f, 'f', 1, 64)
	case n == 4 && f == math.Trunc(f) && abs < 1e15:
		s = strconv.FormatFloat(f, 'f', 0, 64) + "e0"
	default:
		s = strconv.FormatFloat(f, 'g', -1, 64)
	}
	return s
}

func renderText(h string, r *rand.Rand) string {
	raw := unhx(h)
	var b strings.Builder
	b.WriteByte('"')
	style := r.Intn(3) // 0: as it is, 1: mixed, 2: everything escaped
	for i := 0; i < len(raw); {
		c, n := utf8.DecodeRuneInString(raw[i:])
		if c == utf8.RuneError && n <= 1 {
			b.WriteByte(raw[i]) // no character: as it is
			i++
			continue
		}
		esc := style == 2 || style == 1 && r.Intn(2) == 0
		switch {
		case c == '"' || c == '\\':
			if esc && r.Intn(2) == 0 {
				fmt.Fprintf(&b, "\\u%04x", c)
			} else {
				b.WriteByte('\\')
				b.WriteRune(c)
			}
		case c == '/' && esc:
			b.WriteString("\\/")
		case c < 32:
			short := map[rune]string{8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r"}[c]
			if short != "" && r.Intn(2) == 0 {
				b.WriteString(short)
			} else {
				fmt.Fprintf(&b, "\\u%04X", c)
			}
		case esc && c > 0xffff:
			c -= 0x10000
			fmt.Fprintf(&b, "\\u%04x\\u%04X", 0xd800+(c>>10), 0xdc00+(c&0x3ff))
		case esc:
			fmt.Fprintf(&b, "\\u%04x", c)
		default:
			b.WriteRune(c)
		}
		i += n
	}
	b.WriteByte('"')
	return b.String()
}

func renderTree(b *strings.Builder, t Tree, r *rand.Rand, wide bool) {
	gap := func() {
		if wide {
			b.WriteString([]string{"", " ", "\n", "\t", "\r\n  "}[r.Intn(5)])
		}
	}
	switch t.J {
	case "null", "true", "false":
		b.WriteString(t.J)
	case "num":
		if t.S != "" { // spelled out
			b.WriteString(unhx(t.S))
			return
		}
		b.WriteString(renderNum(t.W.f64(), r))
	case "str":
		b.WriteString(renderText(t.S, r))
	case "arr", "obj":
		open, shut := "[", "]"
		if t.J == "obj" {
			open, shut = "{", "}"
		}
		b.WriteString(open)
		for i, kv := range t.K {
			if i > 0 {
				b.WriteString(",")
			}
			gap()
			if t.J == "obj" {
				b.WriteString(renderText(kv.Key, r))
				gap()
				b.WriteString(":")
				gap()
			}
			renderTree(b, kv.Val, r, wide)
			gap()
		}
		if len(t.K) == 0 {
			gap()
		}
		b.WriteString(shut)
	default:
		panic("no such JSON value: " + t.J)
	}
}

// docText writes a document; it ends with its last bracket.
func docText(t Tree, seed int64) []byte {
	r := rand.New(rand.NewSource(seed))
	var b strings.Builder
	wide := r.Intn(2) == 0
	if wide && r.Intn(2) == 0 {
		b.WriteString(" \n")
	}
	renderTree(&b, t, r, wide)
	return []byte(b.String())
}

// ---------------------------------------------------------------------- from text

func treeFrom(d *json.Decoder) (Tree, error) {
	tok, err := d.Token()
	if err != nil {
		return Tree{}, err
	}
	switch v := tok.(type) {
	case nil:
		return Tree{J: "null"}, nil
	case bool:
		return Tree{J: fmt.Sprint(v)}, nil
	case json.Number:
		f, err := strconv.ParseFloat(string(v), 64)
		if err != nil {
			return Tree{}, err
		}
		return Tree{J: "num", W: fw(f)}, nil
	case string:
		t := Tree{J: "str", S: hex.EncodeToString([]byte(v))}
		if at, err := time.Parse(time.RFC3339Nano, v); err == nil {
			t.T, t.W = true, wordsOf(uint64(at.UnixMicro()))
		}
		return t, nil
	case json.Delim:
		t := Tree{J: "arr"}
		if v == '{' {
			t.J = "obj"
		}
		for d.More() {
			kv := TKV{}
			if t.J == "obj" {
				key, err := d.Token()
				if err != nil {
					return Tree{}, err
				}
				kv.Key = hex.EncodeToString([]byte(key.(string)))
			}
			if kv.Val, err = treeFrom(d); err != nil {
				return Tree{}, err
			}
			t.K = append(t.K, kv)
		}
		_, err := d.Token()
		return t, err
	}
	return Tree{}, fmt.Errorf("token %v", tok)
}

// treeOf reads a whole document; what is none becomes a value of its own kind.
func treeOf(text []byte) Tree {
	if json.Valid(text) && utf8.Valid(text) {
		d := json.NewDecoder(bytes.NewReader(text))
		d.UseNumber()
		if t, err := treeFrom(d); err == nil {
			if _, err := d.Token(); err == io.EOF {
				return t.norm()
			}
		}
	}
	return Tree{J: "invalid"}.norm()
}
