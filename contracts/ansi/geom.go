package ansi

import "image"

// ---- vocabulary

const vcBig = 1 << 40

func vcSmall(n int) bool             { return -vcBig <= n && n <= vcBig }
func vcSmallPt(p Point) bool         { return vcSmall(p.X) && vcSmall(p.Y) }
func vcSmallIPt(p image.Point) bool  { return vcSmall(p.X) && vcSmall(p.Y) }
func vcSmallRect(r Rectangle) bool   { return vcSmallPt(r.Min) && vcSmallPt(r.Max) }
func vcIn(p Point, r Rectangle) bool {
	return r.Min.X <= p.X && p.X < r.Max.X && r.Min.Y <= p.Y && p.Y < r.Max.Y
}

// ---- construction

//vc:contract Rect props=C10
//vc:panics Rect
func vcRectPanics(x0, y0, x1, y1 int) bool { return x0 < 1 || y0 < 1 || x1 < 1 || y1 < 1 }

//vc:ensures Rect
func vcRectPost(x0, y0, x1, y1 int, ret Rectangle) bool {
	return ret.Min.X <= ret.Max.X && ret.Min.Y <= ret.Max.Y &&
		(ret.Min.X == x0 && ret.Max.X == x1 || ret.Min.X == x1 && ret.Max.X == x0) &&
		(ret.Min.Y == y0 && ret.Max.Y == y1 || ret.Min.Y == y1 && ret.Max.Y == y0)
}

//vc:contract Pt props=C10
//vc:panics Pt
func vcPtPanics(x, y int) bool { return x < 1 || y < 1 }

//vc:ensures Pt
func vcPtPost(x, y int, ret Point) bool { return ret.X == x && ret.Y == y && ret.Valid() }

//vc:contract PtFromImage props=C10
//vc:requires PtFromImage
func vcPtFromImagePre(p image.Point) bool { return vcSmallIPt(p) }

//vc:panics PtFromImage
func vcPtFromImagePanics(p image.Point) bool { return p.X < 0 || p.Y < 0 }

//vc:ensures PtFromImage
func vcPtFromImagePost(p image.Point, ret Point) bool {
	return ret.X == p.X+1 && ret.Y == p.Y+1 && ret.ToImage() == p
}

//vc:contract Point.ToImage props=C10
//vc:panics Point.ToImage
func vcPointToImagePanics(p Point) bool { return p.X < 1 || p.Y < 1 }

//vc:ensures Point.ToImage
func vcPointToImagePost(p Point, ret image.Point) bool { return ret.X == p.X-1 && ret.Y == p.Y-1 }

//vc:contract Point.Valid props=C10
//vc:ensures Point.Valid
func vcPointValidPost(p Point, ret bool) bool { return ret == (p.X >= 1 && p.Y >= 1) }

//vc:contract RectFromImage props=C10
//vc:requires RectFromImage
func vcRectFromImagePre(ir image.Rectangle) bool { return vcSmallIPt(ir.Min) && vcSmallIPt(ir.Max) }

//vc:panics RectFromImage
func vcRectFromImagePanics(ir image.Rectangle) bool {
	return ir.Min.X < 0 || ir.Min.Y < 0 || ir.Max.X < 0 || ir.Max.Y < 0
}

//vc:ensures RectFromImage
func vcRectFromImagePost(ir image.Rectangle, ret Rectangle) bool {
	return ret.Min.X == ir.Min.X+1 && ret.Min.Y == ir.Min.Y+1 && ret.Max.X == ir.Max.X+1 && ret.Max.Y == ir.Max.Y+1
}

//vc:contract Rectangle.ToImage props=C10
//vc:panics Rectangle.ToImage
func vcRectToImagePanics(r Rectangle) bool {
	return r.Min.X < 1 || r.Min.Y < 1 || r.Max.X < 1 || r.Max.Y < 1
}

// For a well formed rectangle the conversion shifts both corners by one.
//
//vc:ensures Rectangle.ToImage
func vcRectToImagePost(r Rectangle, ret image.Rectangle) bool {
	return vcImplies(r.Min.X <= r.Max.X && r.Min.Y <= r.Max.Y,
		ret.Min.X == r.Min.X-1 && ret.Min.Y == r.Min.Y-1 && ret.Max.X == r.Max.X-1 && ret.Max.Y == r.Max.Y-1)
}

// ---- point arithmetic

//vc:lemma props=C10
func vcLemmaPointArith(p, r Point, q image.Point, k int) {
	vcAssume(vcSmallPt(p) && vcSmallPt(r) && vcSmallIPt(q))
	a := p.Add(q)
	vcAssert("Add adds componentwise", a.X == p.X+q.X && a.Y == p.Y+q.Y)
	vcAssert("Sub undoes Add", a.Sub(q) == p)
	d := p.Diff(r)
	vcAssert("Diff is the displacement", r.Add(d) == p)
	vcAssert("Eq is equality", p.Eq(r) == (p.X == r.X && p.Y == r.Y))
	vcAssume(-1000 <= k && k <= 1000)
	m := p.Mul(k)
	vcAssert("Mul scales", m.X == p.X*k && m.Y == p.Y*k)
	if k != 0 {
		vcAssert("Div undoes Mul", m.Div(k) == p)
	}
}

// ---- set semantics of rectangles

//vc:contract Point.In props=C10
//vc:ensures Point.In
func vcPointInPost(p Point, r Rectangle, ret bool) bool { return ret == vcIn(p, r) }

//vc:lemma props=C10
func vcLemmaRectSets(r, s Rectangle, p Point) {
	vcAssume(vcSmallRect(r) && vcSmallRect(s) && vcSmallPt(p))
	i := r.Intersect(s)
	vcAssert("Intersect is set intersection", p.In(i) == (vcIn(p, r) && vcIn(p, s)))
	u := r.Union(s)
	vcAssert("Union contains both", vcImplies(vcIn(p, r) || vcIn(p, s), p.In(u)))
	if r.Empty() {
		vcAssert("an empty rectangle has no points", !vcIn(p, r))
	}
	if r.Overlaps(s) {
		vcAssert("overlapping rectangles share a point", !i.Empty() && i.Min.In(r) && i.Min.In(s))
	} else {
		vcAssert("non-overlapping rectangles share none", !(vcIn(p, r) && vcIn(p, s)))
	}
	if r.In(s) {
		vcAssert("In is set inclusion", vcImplies(vcIn(p, r), vcIn(p, s)))
	}
	if r.Eq(s) {
		vcAssert("Eq rectangles have the same points", vcIn(p, r) == vcIn(p, s))
	}
	vcAssert("Dx and Dy", r.Dx() == r.Max.X-r.Min.X && r.Dy() == r.Max.Y-r.Min.Y)
	vcAssert("Size", r.Size() == image.Pt(r.Dx(), r.Dy()))
}

// completeness of Empty, In, Eq: a witness exists when they answer no
//
//vc:lemma props=C10
func vcLemmaRectWitness(r, s Rectangle) {
	vcAssume(vcSmallRect(r) && vcSmallRect(s))
	if !r.Empty() {
		vcAssert("a non-empty rectangle has its corner", vcIn(r.Min, r))
	}
	if !r.In(s) {
		last := Point{image.Pt(r.Max.X-1, r.Max.Y-1)}
		vcAssert("not In has a witness", vcIn(r.Min, r) && !vcIn(r.Min, s) || vcIn(last, r) && !vcIn(last, s))
	}
	if r.In(s) && s.In(r) {
		vcAssert("mutual inclusion is Eq", r.Eq(s))
	}
	u := r.Union(s)
	if !r.Empty() && !s.Empty() {
		vcAssert("Union is smallest", (u.Min.X == r.Min.X || u.Min.X == s.Min.X) && (u.Min.Y == r.Min.Y || u.Min.Y == s.Min.Y) &&
			(u.Max.X == r.Max.X || u.Max.X == s.Max.X) && (u.Max.Y == r.Max.Y || u.Max.Y == s.Max.Y))
	} else if r.Empty() {
		vcAssert("Union with empty", u.Eq(s))
	} else {
		vcAssert("Union with empty", u.Eq(r))
	}
}

//vc:lemma props=C10
func vcLemmaRectMoves(r Rectangle, q image.Point, p Point, n int) {
	vcAssume(vcSmallRect(r) && vcSmallIPt(q) && vcSmallPt(p) && vcSmall(n))
	vcAssert("Add translates", p.Add(q).In(r.Add(q)) == vcIn(p, r))
	vcAssert("Sub undoes Add", r.Add(q).Sub(q) == r)
	in := r.Inset(n)
	if r.Dx() >= 2*n && r.Dy() >= 2*n {
		vcAssert("Inset shrinks each side", in.Min.X == r.Min.X+n && in.Max.X == r.Max.X-n && in.Min.Y == r.Min.Y+n && in.Max.Y == r.Max.Y-n)
	}
	if r.Dx() < 2*n {
		vcAssert("Inset too far is empty", in.Empty() && in.Min.X == in.Max.X)
	}
	if r.Dy() < 2*n {
		vcAssert("Inset too far is empty", in.Empty() && in.Min.Y == in.Max.Y)
	}
	if n >= 0 && !r.Empty() {
		vcAssert("Inset stays inside", in.In(r))
	}
	c := r.Canon()
	vcAssert("Canon is ordered", c.Min.X <= c.Max.X && c.Min.Y <= c.Max.Y)
	vcAssert("Canon keeps the corners", (c == r) == (r.Min.X <= r.Max.X && r.Min.Y <= r.Max.Y) &&
		c.Min.X+c.Max.X == r.Min.X+r.Max.X && c.Min.Y+c.Max.Y == r.Min.Y+r.Max.Y && (c.Min.X == r.Min.X || c.Min.X == r.Max.X) && (c.Min.Y == r.Min.Y || c.Min.Y == r.Max.Y))
}
