package main

// Cross-checks of the interpreter against compiled code: a harness is explored
// symbolically; then pseudo-random input vectors are run natively, and for each
// vector exactly the paths whose condition holds must have been found, with the
// same outcome and the same observed values.  This validates the engine, it
// decides no property.

import (
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"strconv"
	"strings"
)

type obsRec struct {
	name string
	t    *Term
}

// xval is the value of an input in vector k; package vsym has the same function.
func xval(k int, name string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d:%s", k, name)
	v := h.Sum64()
	v ^= v >> 29
	v *= 0xbf58476d1ce4e5b9
	v ^= v >> 32
	switch v % 8 {
	case 0:
		return 0
	case 1:
		return 0xffffffffffffffff
	case 2:
		return (v >> 8) % 5
	case 3:
		return 0x7ffe + (v>>8)%4
	case 4:
		// shared by all inputs of the vector
		return uint64(k) * 2654435761
	}
	return v >> 8
}

func genVar(m *Model, t *Term) uint64 {
	nm := t.name
	if i := strings.LastIndexByte(nm, '['); i > 0 && strings.HasSuffix(nm, "]") {
		lohi := strings.Split(nm[i+1:len(nm)-1], ",")
		if len(lohi) == 2 {
			lo, e1 := strconv.ParseInt(lohi[0], 10, 64)
			hi, e2 := strconv.ParseInt(lohi[1], 10, 64)
			if e1 == nil && e2 == nil {
				return uint64(lo + int64(m.gen(nm[:i], 64)%uint64(hi-lo+1)))
			}
		}
	}
	if t.w == 0 {
		return m.gen(nm, 64) & 1
	}
	return m.gen(nm, t.w) & mask(t.w)
}

func genUF(m *Model, t *Term, args []uint64) uint64 {
	nm := strings.TrimPrefix(t.name, "uf:")
	base, path := nm, ""
	if i := strings.IndexByte(nm, '/'); i >= 0 {
		base, path = nm[:i], nm[i:]
	}
	return m.gen(fmt.Sprintf("%s@%d%s", base, args[0], path), t.w) & mask(t.w)
}

func (m *M) xclaim(kind string) {
	for k := 0; k < m.rec.xn; k++ {
		mod := newModel()
		kk := k
		mod.gen = func(name string, w uint8) uint64 { return xval(kk, name) }
		m.c.evalReset()
		ok := true
		for _, in := range m.inputs {
			if in.kind == "const" && in.n != nil && in.n.c > 0 {
				if xval(k, in.name)%in.n.c != in.t.c {
					ok = false
					break
				}
			}
		}
		if !ok {
			continue
		}
		for _, p := range m.pc {
			if m.c.Eval(p, mod) != 1 {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		var sb strings.Builder
		sb.WriteString(kind)
		if kind == "done" {
			for _, o := range m.obs {
				fmt.Fprintf(&sb, " %s=%d", o.name, m.c.Eval(o.t, mod))
			}
		}
		m.rec.mu.Lock()
		m.rec.xclaims[k] = append(m.rec.xclaims[k], sb.String())
		m.rec.mu.Unlock()
	}
	m.c.evalReset()
}

func (r *Run) xcompare() (bad int) {
	replayMu.Lock()
	bin, err := buildReplay(r.h.Pkg)
	replayMu.Unlock()
	if err != nil {
		fatalf("%v", err)
	}
	cmd := exec.Command(bin, r.h.Name, "-rand", fmt.Sprint(r.xn))
	cmd.Stderr = os.Stderr
	out, _ := cmd.Output()
	lines := strings.Split(strings.TrimSpace(string(out)), "\n")
	nok, nass := 0, 0
	if len(lines) != r.xn {
		logf("%s: native run gave %d lines of %d: %s", r.h.Name, len(lines), r.xn, clip(string(out), 500))
		return 1
	}
	for k, l := range lines {
		cl := r.xclaims[k]
		var good []string
		for _, c := range cl {
			if !strings.HasPrefix(c, "infeasible") && !strings.HasPrefix(c, "stop") {
				good = append(good, c)
			}
		}
		ok := false
		switch {
		case strings.HasPrefix(l, "done"):
			ok = len(good) == 1 && good[0] == l
			nok++
		case strings.HasPrefix(l, "panic"):
			ok = len(good) == 1 && strings.HasPrefix(good[0], "panic")
			nok++
		default: // assumption or assertion failed
			ok = len(good) == 0
			nass++
		}
		if !ok {
			bad++
			if bad <= 5 {
				logf("%s vector %d: native %q, engine %q", r.h.Name, k, clip(l, 900), cl)
			}
		}
	}
	logf("%s: %d vectors, %d completed natively, %d excluded, %d disagree; paths %v complete=%v", r.h.Name, r.xn, nok, nass, bad, r.paths, r.complete())
	return bad
}
