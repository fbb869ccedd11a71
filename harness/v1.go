package main

import (
	"encoding/binary"
	"math/rand"
)

// file1 is a version 1 file: count, declared size (off by delta), deflated message.
func file1(num, msg []byte, delta int) []byte {
	packed := deflated(msg)
	out := append([]byte{1}, num...)
	out = binary.LittleEndian.AppendUint64(out, uint64(len(packed)+delta))
	return append(out, packed...)
}

// unfile1 is the message of a version 1 file.
func unfile1(b []byte) ([]byte, bool) {
	if len(b) < 13 || b[0] != 1 {
		return nil, false
	}
	return inflated(b[13:])
}

// muts1 loads byte mutations of the message of a version 1 file.
func (s *session) muts1(op Op) bool {
	file, ok := s.files[op.F]
	if !ok {
		return false
	}
	base, ok := unfile1(file)
	if !ok {
		return true
	}
	rng := rand.New(rand.NewSource(op.Seed))
	type mut struct{ p, x int }
	var all []mut
	for p := range base {
		seen := map[int]bool{int(base[p]): true}
		for _, x := range []int{0, 1, 2, 5, 8, 10, 13, 18, 26, 34, 45, 48, 58, 100, 127, 128, 255, int(base[p]) + 1, int(base[p]) - 1, int(base[p]) ^ 128} {
			if !seen[x&255] {
				seen[x&255] = true
				all = append(all, mut{p, x & 255})
			}
		}
	}
	if op.N > 0 && len(all) > op.N {
		rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		all = all[:op.N]
	}
	res := make([][]int, 0)
	for _, m := range all {
		b := append([]byte{}, base...)
		b[m.p] = byte(m.x)
		out, _, gl := s.load(op.Reg, newSource(file1(file[1:5], b, 0), nil))
		res = append(res, []int{m.p + 1, m.x, outCode(out), gl})
		if out == outHang {
			break
		}
	}
	s.t.emit(E{"op": "muts1", "f": op.F, "base": ints(base), "res": res, "note": note()})
	return true
}
