package anansi

import (
	"image"

	"github.com/jcorbin/anansi/ansi"
)

// ---- grids
//
// A grid is well formed when its bounds lie within its data. That is what
// Resize and SubRect make.

const vcMaxCoord = 1 << 30

func vcGridWF(g Grid) bool {
	if len(g.Rune) != len(g.Attr) || g.Stride < 0 {
		return false
	}
	mn, mx := g.Rect.Min, g.Rect.Max
	if mn.X == 0 && mn.Y == 0 && mx.X == 0 && mx.Y == 0 {
		return g.Stride == 0 && len(g.Rune) == 0
	}
	return 1 <= mn.X && mn.X <= mx.X && mx.X-1 <= g.Stride &&
		1 <= mn.Y && mn.Y <= mx.Y  && (mx.Y-1)*g.Stride <= len(g.Rune) &&
		(g.Stride > 0 || mn.Y == 1)
}

// leaves room for arithmetic
func vcSmall(g Grid) bool {
	return g.Stride <= vcMaxCoord && g.Rect.Max.X <= vcMaxCoord && g.Rect.Max.Y <= vcMaxCoord && len(g.Rune) <= vcMaxCoord*vcMaxCoord
}

// the cell with index i is at this zero based column and row
func vcCol(g Grid, i int) int { return vcMod(i, g.Stride) }
func vcRow(g Grid, i int) int { return vcDiv(i, g.Stride) }

// the cell with index i is within the bounds of g
func vcCellIn(g Grid, i int) bool {
	if g.Stride <= 0 {
		return false
	}
	x, y := vcCol(g, i)+1, vcRow(g, i)+1
	return g.Rect.Min.X <= x && x < g.Rect.Max.X && g.Rect.Min.Y <= y && y < g.Rect.Max.Y
}

func vcSameGrid(a, b Grid) bool {
	return a.Rect == b.Rect && a.Stride == b.Stride && len(a.Rune) == len(b.Rune) && len(a.Attr) == len(b.Attr)
}

//vc:gen
func vcGenGrid(r *vcRand) Grid {
	w, h := r.Intn(6), r.Intn(5)
	if r.Intn(10) == 0 {
		return Grid{}
	}
	n := w*h + vcIte(r.Intn(3) == 0, r.Intn(4), 0)
	g := Grid{Stride: w, Rune: make([]rune, n, n+r.Intn(5)), Attr: make([]ansi.SGRAttr, n, n+r.Intn(5))}
	for i := range g.Rune {
		g.Rune[i] = rune(r.Intn(3) * (65 + r.Intn(26)))
		g.Attr[i] = ansi.SGRAttr(r.Intn(3) * r.Intn(64))
	}
	g.Rect = ansi.Rect(1, 1, w+1, h+1)
	if w > 0 && h > 0 && r.Bool() {
		g.Rect.Min = ansi.Pt(1+r.Intn(w), 1+r.Intn(h))
		g.Rect.Max = ansi.Pt(g.Rect.Min.X+r.Intn(w+2-g.Rect.Min.X), g.Rect.Min.Y+r.Intn(h+2-g.Rect.Min.Y))
	}
	return g
}

//vc:contract Grid.CellOffset props=C11 mode=int
//vc:requires Grid.CellOffset
func vcCellOffsetPre(g Grid) bool { return vcGridWF(g) }

// A point is within bounds exactly when it has an offset, which is in the data
// and leads back to the point.
//
//vc:ensures Grid.CellOffset
func vcCellOffsetPost(g Grid, pt ansi.Point, ret0 int, ret1 bool) bool {
	in := g.Rect.Min.X <= pt.X && pt.X < g.Rect.Max.X && g.Rect.Min.Y <= pt.Y && pt.Y < g.Rect.Max.Y
	if !in {
		return ret0 == 0 && !ret1
	}
	return ret1 && 0 <= ret0 && ret0 < len(g.Rune) && ret0 < len(g.Attr) &&
		vcCol(g, ret0) == pt.X-1 && vcRow(g, ret0) == pt.Y-1
}

//vc:contract Grid.IsSub props=C11 mode=int
//vc:requires Grid.IsSub
func vcIsSubPre(g *Grid) bool { return g != nil && vcGridWF(*g) }

//vc:ensures Grid.IsSub
func vcIsSubPost(g *Grid, old_g *Grid, ret bool) bool {
	full := g.Stride == 0 || g.Rect.Max.X-g.Rect.Min.X == g.Stride && g.Rect.Max.Y-g.Rect.Min.Y == vcDiv(len(g.Rune), g.Stride)
	return ret == !full && vcSameGrid(*g, *old_g)
}

//vc:contract Grid.Full props=C11 mode=int
//vc:requires Grid.Full
func vcFullPre(g Grid) bool { return vcGridWF(g) && vcSmall(g) }

//vc:ensures Grid.Full
func vcFullPost(g, ret Grid) bool {
	return ret.Stride == g.Stride && vcSameArr(ret.Rune, g.Rune) && vcSameArr(ret.Attr, g.Attr) &&
		len(ret.Rune) == len(g.Rune) && len(ret.Attr) == len(g.Attr) &&
		ret.Rect.Min == ansi.Pt(1, 1) && ret.Rect.Max.X == 1+g.Stride &&
		(g.Stride == 0 && ret.Rect.Max.Y == 1 || g.Stride > 0 && ret.Rect.Max.Y == 1+vcDiv(len(g.Rune), g.Stride))
}

//vc:contract Grid.SubRect props=C11 mode=int
//vc:requires Grid.SubRect
func vcSubRectPre(g Grid, r ansi.Rectangle) bool { return vcGridWF(g) }

// The sub-grid covers the cells of both rectangles, of the same data.
//
//vc:ensures Grid.SubRect
func vcSubRectPost(g Grid, r ansi.Rectangle, ret Grid) bool {
	if !(g.Rect.Min.X <= r.Min.X && r.Min.X < g.Rect.Max.X && g.Rect.Min.Y <= r.Min.Y && r.Min.Y < g.Rect.Max.Y) {
		return len(ret.Rune) == 0 && len(ret.Attr) == 0 && ret.Stride == 0 && ret.Rect == ansi.Rectangle{}
	}
	return vcGridWF(ret) && ret.Stride == g.Stride && vcSameArr(ret.Rune, g.Rune) && vcSameArr(ret.Attr, g.Attr) &&
		len(ret.Rune) == len(g.Rune) && len(ret.Attr) == len(g.Attr) &&
		ret.Rect.Min == r.Min && ret.Rect.Max.X == vcClamp(r.Max.X, r.Min.X, g.Rect.Max.X) &&
		ret.Rect.Max.Y == vcClamp(r.Max.Y, r.Min.Y, g.Rect.Max.Y)
}

func vcClamp(v, lo, hi int) int { return vcIte(v > hi, hi, vcIte(v < lo, lo, v)) }

//vc:contract Grid.Resize props=C11 mode=int
//vc:requires Grid.Resize
func vcResizePre(g *Grid, size image.Point) bool {
	return g != nil && vcGridWF(*g) && vcSmall(*g) && 0 <= size.X && size.X <= vcMaxCoord/4 && 0 <= size.Y && size.Y <= vcMaxCoord/4
}

// A grid takes the size asked for, a sub-grid as much of it as its data has
// room for. Nothing is reported or changed when it already has that size.
//
//vc:ensures Grid.Resize
func vcResizePost(g, old_g *Grid, size image.Point, ret bool) bool {
	w, h := old_g.Rect.Max.X-old_g.Rect.Min.X, old_g.Rect.Max.Y-old_g.Rect.Min.Y
	if !vcGridWF(*g) || ret != (size.X != w || size.Y != h) {
		return false
	}
	if !ret {
		return vcSameGrid(*g, *old_g)
	}
	if old_g.Stride > 0 && !(w == old_g.Stride && h == vcDiv(len(old_g.Rune), old_g.Stride)) {
		mw, mh := old_g.Stride-(old_g.Rect.Min.X-1), vcDiv(len(old_g.Rune), old_g.Stride)-(old_g.Rect.Min.Y-1)
		return g.Stride == old_g.Stride && len(g.Rune) == len(old_g.Rune) && g.Rect.Min == old_g.Rect.Min &&
			g.Rect.Max.X-g.Rect.Min.X == vcIte(size.X > mw, mw, size.X) &&
			g.Rect.Max.Y-g.Rect.Min.Y == vcIte(size.Y > mh, mh, size.Y)
	}
	return g.Rect.Min == ansi.Pt(1, 1) && g.Rect.Max.X == 1+size.X && g.Rect.Max.Y == 1+size.Y &&
		g.Stride == size.X && len(g.Rune) == size.X*size.Y && len(g.Attr) == size.X*size.Y
}

//vc:contract Grid.Clear props=C11 mode=int
//vc:requires Grid.Clear
func vcClearPre(g Grid) bool { return vcGridWF(g) && vcSmall(g) }

// Clears the cells within bounds, and no others.
//
//vc:ensures Grid.Clear
func vcClearPost(g, old_g Grid) bool {
	all := vcWhole(g)
	return vcAll(0, len(g.Rune), func(i int) bool {
		return g.Rune[i] == vcIte(all || vcCellIn(g, i), 0, old_g.Rune[i]) &&
			g.Attr[i] == vcIte(all || vcCellIn(g, i), 0, old_g.Attr[i])
	})
}

func vcWhole(g Grid) bool {
	return g.Stride == 0 || g.Rect.Max.X-g.Rect.Min.X == g.Stride && g.Rect.Max.Y-g.Rect.Min.Y == vcDiv(len(g.Rune), g.Stride)
}

//vc:invariant Grid.Clear loop0
func vcClearInv0(g, old_g Grid, rangeindex int) bool {
	return vcAll(0, len(g.Rune), func(k int) bool {
		return g.Rune[k] == vcIte(k <= rangeindex, 0, old_g.Rune[k]) && g.Attr[k] == vcIte(k <= rangeindex, 0, old_g.Attr[k])
	})
}

// cell i comes before the point, within bounds and row by row
func vcCellBefore(g Grid, i int, pt ansi.Point) bool {
	if g.Stride <= 0 {
		return false
	}
	x, y := vcCol(g, i)+1, vcRow(g, i)+1
	return vcCellIn(g, i) && (y < pt.Y || y == pt.Y && x < pt.X)
}

func vcClearedTo(g, old_g Grid, pt ansi.Point) bool {
	return vcAll(0, len(g.Rune), func(i int) bool {
		return g.Rune[i] == vcIte(vcCellBefore(g, i, pt), 0, old_g.Rune[i]) &&
			g.Attr[i] == vcIte(vcCellBefore(g, i, pt), 0, old_g.Attr[i])
	})
}

//vc:invariant Grid.Clear loop1
func vcClearInv1(g, old_g Grid, pt ansi.Point, i, dx int) bool {
	return g.Stride > 0 && dx == g.Rect.Max.X-g.Rect.Min.X && g.Rect.Min.Y <= pt.Y && pt.Y <= g.Rect.Max.Y &&
		i == (pt.Y-1)*g.Stride+vcIte(g.Rect.Empty(), -(g.Rect.Min.Y-1)*g.Stride, g.Rect.Min.X-1) && vcClearedTo(g, old_g, ansi.Pt(g.Rect.Min.X, pt.Y))
}

//vc:invariant Grid.Clear loop2
func vcClearInv2(g, old_g Grid, pt ansi.Point, i, dx int) bool {
	return dx == g.Rect.Max.X-g.Rect.Min.X && g.Rect.Min.Y <= pt.Y && pt.Y < g.Rect.Max.Y && g.Rect.Min.X <= pt.X && pt.X <= g.Rect.Max.X &&
		i == (pt.Y-1)*g.Stride+vcIte(g.Rect.Empty(), -(g.Rect.Min.Y-1)*g.Stride, pt.X-1) && vcClearedTo(g, old_g, pt)
}

//vc:decreases Grid.Clear loop1
func vcClearDec1(g Grid, pt ansi.Point) int { return g.Rect.Max.Y - pt.Y }

//vc:decreases Grid.Clear loop2
func vcClearDec2(g Grid, pt ansi.Point) int { return g.Rect.Max.X - pt.X }

// the cell of other that lies where the cell with index i does in g
func vcPeer(g, other Grid, i int) int {
	return (vcRow(g, i)-g.Rect.Min.Y+other.Rect.Min.Y)*other.Stride + vcCol(g, i) - g.Rect.Min.X + other.Rect.Min.X
}

func vcRuneOr(r, zero rune) rune { return vcIte(r == 0, zero, r) }

func vcCellEq(g, other Grid, zero rune, i int) bool {
	if !vcCellIn(g, i) {
		return true
	}
	j := vcPeer(g, other, i)
	return 0 <= j && j < len(other.Rune) && j < len(other.Attr) && g.Attr[i] == other.Attr[j] && vcRuneOr(g.Rune[i], zero) == vcRuneOr(other.Rune[j], zero)
}

func vcSameSize(g, other Grid) bool {
	return g.Rect.Max.X-g.Rect.Min.X == other.Rect.Max.X-other.Rect.Min.X &&
		g.Rect.Max.Y-g.Rect.Min.Y == other.Rect.Max.Y-other.Rect.Min.Y
}

//vc:contract Grid.Eq props=C11 mode=int
//vc:requires Grid.Eq
func vcEqPre(g, other Grid) bool { return vcGridWF(g) && vcGridWF(other) && vcSmall(g) && vcSmall(other) }

// Equal means of the same size and with the same contents within bounds,
// wherever those are and whatever lies outside of them.
//
//vc:ensures Grid.Eq
func vcEqYes(g, other Grid, zero rune, ret bool) bool {
	return !ret || vcSameSize(g, other) && vcAll(0, len(g.Rune), func(i int) bool { return vcCellEq(g, other, zero, i) })
}

//vc:ensures Grid.Eq
func vcEqNo(g, other Grid, zero rune, ret bool) bool {
	return ret || !vcSameSize(g, other) || vcExists(0, len(g.Rune), func(i int) bool { return !vcCellEq(g, other, zero, i) })
}

// offset o is where row y of the bounds starts
func vcOffAt(g Grid, y, o int) bool {
	return vcImplies(g.Rect.Empty(), o == y*g.Stride) &&
		vcImplies(!g.Rect.Empty(), o == (g.Rect.Min.Y-1+y)*g.Stride+g.Rect.Min.X-1)
}


//vc:invariant Grid.Eq loop0
func vcEqInv0(g, other Grid, zero rune, y, gi, oi int) bool {
	return 0 <= y && (y == 0 || y <= g.Rect.Max.Y-g.Rect.Min.Y) && vcOffAt(g, y, gi) && vcOffAt(other, y, oi) &&
		vcAll(0, len(g.Rune), func(i int) bool {
			return !vcCellBefore(g, i, ansi.Pt(g.Rect.Min.X, g.Rect.Min.Y+y)) || vcCellEq(g, other, zero, i)
		})
}

//vc:invariant Grid.Eq loop1
func vcEqInv1(g, other Grid, zero rune, y, x, gi, oi int) bool {
	return 0 <= y && y < g.Rect.Max.Y-g.Rect.Min.Y && vcOffAt(g, y, gi) && vcOffAt(other, y, oi) &&
		0 <= x && x <= g.Rect.Max.X-g.Rect.Min.X &&
		vcAll(0, len(g.Rune), func(i int) bool {
			return !vcCellBefore(g, i, ansi.Pt(g.Rect.Min.X+x, g.Rect.Min.Y+y)) || vcCellEq(g, other, zero, i)
		})
}

//vc:decreases Grid.Eq loop0
func vcEqDec0(g Grid, y int) int { return g.Rect.Max.Y - g.Rect.Min.Y - y }

//vc:decreases Grid.Eq loop1
func vcEqDec1(g Grid, x int) int { return g.Rect.Max.X - g.Rect.Min.X - x }

//vc:gen
func vcGenEqGrid(r *vcRand) vcGridPair {
	p := vcGridPair{a: vcGenGrid(r)}
	p.b = p.a
	switch r.Intn(4) {
	case 0:
		p.b = vcGenGrid(r)
	case 1:
		p.b.Rune = append([]rune(nil), p.a.Rune...)
		p.b.Attr = append([]ansi.SGRAttr(nil), p.a.Attr...)
		for i := r.Intn(2); i > 0 && len(p.b.Rune) > 0; i-- {
			p.b.Rune[r.Intn(len(p.b.Rune))] = 'x'
		}
	case 2:
		if p.a.Stride > 0 && p.a.Rect.Max.X < p.a.Stride+1 {
			p.b.Rect.Min.X++
			p.b.Rect.Max.X++
		}
	}
	return p
}

type vcGridPair struct{ a, b Grid }

//vc:lemma props=C11 mode=int sampled
func vcLemmaEqPairs(p vcGridPair) {
	vcAssert("as specified", vcEqYes(p.a, p.b, ' ', p.a.Eq(p.b, ' ')) && vcEqNo(p.a, p.b, ' ', p.a.Eq(p.b, ' ')))
	vcAssert("symmetric", p.a.Eq(p.b, ' ') == p.b.Eq(p.a, ' '))
	vcAssert("reflexive", p.a.Eq(p.a, 0))
}

//vc:invariant Grid.Eq loop1
func vcEqInvPeer(g, other Grid, x, gi, oi int) bool {
	return x >= g.Rect.Max.X-g.Rect.Min.X || vcCellIn(g, gi+x) && vcPeer(g, other, gi+x) == oi+x
}

//vc:contract Grid.SubAt props=C11 mode=int
//vc:requires Grid.SubAt
func vcGridSubAtPre(g Grid) bool { return vcGridWF(g) }

//vc:ensures Grid.SubAt
func vcGridSubAtPost(g Grid, at ansi.Point, ret Grid) bool {
	return vcSubRectPost(g, ansi.Rectangle{Min: at, Max: g.Rect.Max}, ret)
}

//vc:contract Grid.SubSize props=C11 mode=int
//vc:requires Grid.SubSize
func vcGridSubSizePre(g Grid, sz image.Point) bool {
	return vcGridWF(g) && vcSmall(g) && 0 <= sz.X && sz.X <= vcMaxCoord && 0 <= sz.Y && sz.Y <= vcMaxCoord
}

//vc:ensures Grid.SubSize
func vcGridSubSizePost(g Grid, sz image.Point, ret Grid) bool {
	r := ansi.Rectangle{Min: g.Rect.Min, Max: g.Rect.Min}
	r.Max.X += sz.X
	r.Max.Y += sz.Y
	return vcSubRectPost(g, r, ret)
}

//vc:contract Grid.Bounds props=C11 mode=int
//vc:ensures Grid.Bounds
func vcGridBoundsPost(g Grid, ret ansi.Rectangle) bool { return ret == g.Rect }
