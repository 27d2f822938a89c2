package hroot

import (
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/zzverif/vsym"
)

//vsym:check C06
func H_C06_choice() {
	b := nrgba64("b")
	t := nrgba64("t")
	c := limage.CompositeDissolve.Composite(b, t)
	ot := t
	ot.A = full
	switch vsym.Choose("case", 3) {
	case 0:
		vsym.Assert(vsym.Or(same(c, b), same(c, ot)), "either the bottom or the opaque top")
	case 1:
		vsym.Assume(t.A == full)
		vsym.Assert(same(c, t), "an opaque top is shown")
	case 2:
		vsym.Assume(t.A == 0)
		vsym.Assert(same(c, b), "a transparent top is not shown")
	}
	vsym.Cover("result")
}

// The same draw with a higher alpha of the top.
//
//vsym:check C06
func H_C06_monotone() {
	b := nrgba64("b")
	t := nrgba64("t")
	t2 := t
	t2.A = vsym.U16("higherA")
	vsym.Assume(t2.A >= t.A)
	ot := t
	ot.A = full
	vsym.Assume(!same(b, ot))
	vsym.RandReset()
	c := limage.CompositeDissolve.Composite(b, t)
	vsym.RandReset()
	d := limage.CompositeDissolve.Composite(b, t2)
	vsym.Assert(vsym.Implies(same(c, ot), same(d, ot)), "a higher alpha does not hide the top")
	// the draw is not degenerate: the top's alpha matters
	vsym.Cover("result")
}

// A half transparent top is shown for some draws and hidden for others.
//
//vsym:check C06
func H_C06_bothHappen() {
	b := nrgba64("b")
	t := nrgba64("t")
	vsym.Assume(b.A == full && t.A >= 0x4000 && t.A <= 0xc000 && b.R != t.R)
	c := nrgbaOf(limage.CompositeDissolve.Composite(b, t))
	if c.R == t.R {
		vsym.Cover("top shown")
	} else {
		vsym.Cover("bottom shown")
	}
}
