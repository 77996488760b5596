package ansi

// ---- attribute values
//
// An attribute is well formed when it only has bits that the constructors can
// produce: no stray high bits, and colour bits only beside a colour-set flag.

func vcAttrWF(a SGRAttr) bool {
	return a>>59 == 0 &&
		vcImplies(a&(1<<32) == 0, a&SGRAttrFGMask == 0) &&
		vcImplies(a&(1<<58) == 0, a&SGRAttrBGMask == 0)
}

const vcAttrFlags = SGRAttrBold | SGRAttrDim | SGRAttrItalic | SGRAttrUnderscore | SGRAttrNegative | SGRAttrConceal

// what a terminal shows for an attribute: everything but the clear request
func vcLook(a SGRAttr) SGRAttr { return a &^ SGRAttrClear }

//vc:gen
func vcGenSGRAttr(r *vcRand) SGRAttr {
	a := SGRAttr(r.next()) & (SGRAttrClear | vcAttrFlags)
	if r.Bool() {
		a &= SGRAttr(r.next())
	}
	if r.Intn(3) > 0 {
		a |= vcGenSGRColor(r).FG()
	}
	if r.Intn(3) > 0 {
		a |= vcGenSGRColor(r).BG()
	}
	if r.Intn(40) == 0 {
		a ^= 1 << uint(r.Intn(64))
	}
	return a
}

//vc:gen
func vcGenSGRColor(r *vcRand) SGRColor {
	switch r.Intn(5) {
	case 0:
		return SGRColor(r.Intn(8))
	case 1:
		return SGRColor(r.Intn(20))
	case 2:
		return SGRColor(r.Intn(256))
	case 3:
		return RGB(uint8(r.next()), uint8(r.next()), uint8(r.next()))
	}
	return RGB(uint8(r.Intn(3)*127), uint8(r.Intn(11)), uint8(90+r.Intn(20)))
}

// Merge: flags accumulate, a set colour replaces, a clear request drops
// everything that was there before.
//
//vc:contract SGRAttr.Merge props=C01 mode=bv
//vc:ensures SGRAttr.Merge
func vcMergePost(attr, other SGRAttr, ret SGRAttr) bool {
	base := vcIte(other&SGRAttrClear != 0, 0, attr)
	fg := vcIte(other&(1<<32) != 0, other&SGRAttrFGMask, base&SGRAttrFGMask)
	bg := vcIte(other&(1<<58) != 0, other&SGRAttrBGMask, base&SGRAttrBGMask)
	return vcImplies(vcAttrWF(attr) && vcAttrWF(other),
		ret == base&SGRAttrClear|(base|other)&vcAttrFlags|fg|bg && vcAttrWF(ret))
}

// Diff: merging the difference into the receiver gives the look of the
// argument.
//
//vc:contract SGRAttr.Diff props=C01,C17 mode=bv
//vc:ensures SGRAttr.Diff
func vcDiffPost(attr, other SGRAttr, ret SGRAttr) bool {
	return vcImplies(vcAttrWF(attr) && vcAttrWF(other),
		vcLook(attr.Merge(ret)) == vcLook(other) && vcAttrWF(ret) &&
			vcImplies(other&SGRAttrClear != 0, ret == other) &&
			vcImplies(other&SGRAttrClear == 0 && vcLook(attr) == other, ret == 0))
}

// ... and asks for a clear only when something has to be taken away
//
//vc:ensures SGRAttr.Diff
func vcDiffMinimal(attr, other SGRAttr, ret SGRAttr) bool {
	return vcImplies(vcAttrWF(attr) && vcAttrWF(other) && other&SGRAttrClear == 0,
		(ret&SGRAttrClear != 0) == (attr&vcAttrFlags&^other != 0 ||
			attr&(1<<32) != 0 && other&(1<<32) == 0 || attr&(1<<58) != 0 && other&(1<<58) == 0) &&
			vcImplies(ret&SGRAttrClear == 0, ret&vcAttrFlags&attr == 0 &&
				vcImplies(attr&SGRAttrFGMask == other&SGRAttrFGMask, ret&SGRAttrFGMask == 0) &&
				vcImplies(attr&SGRAttrBGMask == other&SGRAttrBGMask, ret&SGRAttrBGMask == 0)))
}

//vc:lemma props=C01 mode=bv
func vcLemmaMergeAlgebra(a, b, c SGRAttr) {
	vcAssume(vcAttrWF(a) && vcAttrWF(b) && vcAttrWF(c))
	vcAssert("merging nothing changes nothing", a.Merge(0) == a)
	vcAssert("merging into nothing gives the look", vcLook(SGRClear.Merge(a)) == vcLook(a))
	vcAssert("merging twice is merging once", a.Merge(b).Merge(b) == a.Merge(b))
	vcAssert("a clear forgets the past", a.Merge(b|SGRAttrClear) == c.Merge(b|SGRAttrClear))
	if c&SGRAttrClear == 0 {
		vcAssert("merges may be batched", a.Merge(b).Merge(c) == a.Merge(b.Merge(c)|b&SGRAttrClear))
	}
	vcAssert("nothing to do between equals", vcLook(a.Diff(vcLook(a))) == 0)
}

//vc:lemma props=C01 mode=bv
func vcLemmaAttrColors(a SGRAttr, c, d SGRColor) {
	vcAssume(vcAttrWF(a))
	c &= 0x01ffffff
	d &= 0x01ffffff
	f, fs := c.FG().FG()
	vcAssert("FG reads back", f == c && fs)
	_, bs := c.FG().BG()
	vcAssert("FG sets no background", !bs && c.FG()&(vcAttrFlags|SGRAttrClear) == 0)
	g, gs := d.BG().BG()
	vcAssert("BG reads back", g == d && gs)
	_, hs := d.BG().FG()
	vcAssert("BG sets no foreground", !hs && d.BG()&(vcAttrFlags|SGRAttrClear) == 0)
	vcAssert("constructors are well formed", vcAttrWF(c.FG()) && vcAttrWF(d.BG()) && vcAttrWF(c.FG()|d.BG()|a&vcAttrFlags))
	s := a.SansFG()
	_, set := s.FG()
	sb, sbs := s.BG()
	ab, abs := a.BG()
	vcAssert("SansFG only drops the foreground", !set && sb == ab && sbs == abs && (s^a)&(vcAttrFlags|SGRAttrClear) == 0)
	t := a.SansBG()
	_, tset := t.BG()
	tf, tfs := t.FG()
	af, afs := a.FG()
	vcAssert("SansBG only drops the background", !tset && tf == af && tfs == afs && (t^a)&(vcAttrFlags|SGRAttrClear) == 0)
	m := a.Merge(c.FG() | d.BG())
	mf, mfs := m.FG()
	mb, mbs := m.BG()
	vcAssert("merged colours read back", mf == c && mfs && mb == d && mbs && (m^a)&(vcAttrFlags|SGRAttrClear) == 0)
}
