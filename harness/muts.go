package main

import (
	"math/rand"
)

// muts loads byte mutations of a file: [position, new byte, outcome, line].
// Positions are in head ++ inflated body, 1 based; with the rest deflated where the flag says so.
func (s *session) muts(op Op) bool {
	file, ok := s.files[op.F]
	if !ok {
		return false
	}
	head, body, _, how := plain(file)
	if how == "headless" || how == "broken" {
		return true
	}
	base := append(append([]byte{}, head...), body...)
	rng := rand.New(rand.NewSource(op.Seed))
	type mut struct{ p, x int }
	var all []mut
	seen := map[mut]bool{}
	add := func(p, x int) {
		m := mut{p, x & 255}
		if int(base[p]) != m.x && !seen[m] {
			seen[m] = true
			all = append(all, m)
		}
	}
	for p := range base {
		for _, x := range []int{0, 1, 2, 3, 4, 12, 13, 17, 21, 26, 100, 127, 128, 255, int(base[p]) + 1, int(base[p]) - 1, int(base[p]) ^ 128} {
			add(p, x)
		}
	}
	if op.N > 0 && len(all) > op.N {
		rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		all = all[:op.N]
	}
	res := make([][]int, 0)
	for _, m := range all {
		b := append([]byte{}, base...)
		b[m.p] = byte(m.x)
		// what the bytes say of their container, not what the file was
		if h, ok := headLen(b); ok && b[h-1] == 1 {
			b = append(b[:h:h], deflated(b[h:])...)
		}
		out, _, gl := s.load(op.Reg, newSource(b, nil))
		res = append(res, []int{m.p + 1, m.x, outCode(out), gl})
		if out == outHang {
			break
		}
	}
	s.t.emit(E{"op": "muts", "f": op.F, "base": ints(base), "reg": regNames(op.Reg), "res": res, "note": note()})
	return true
}
