package anansi

import "github.com/jcorbin/anansi/ansi"

// ---- drawing a grid into another

// how much of the source fits
func vcFitX(dst, src Grid) int {
	a, b := src.Rect.Max.X-src.Rect.Min.X, dst.Rect.Max.X-dst.Rect.Min.X
	return vcIte(a < b, a, b)
}

func vcFitY(dst, src Grid) int {
	a, b := src.Rect.Max.Y-src.Rect.Min.Y, dst.Rect.Max.Y-dst.Rect.Min.Y
	return vcIte(a < b, a, b)
}

// the destination cell with index i is drawn by the time row y starts
func vcDrawn(dst, src Grid, i, y int) bool {
	if dst.Stride <= 0 {
		return false
	}
	r, c := vcRow(dst, i)+1-dst.Rect.Min.Y, vcCol(dst, i)+1-dst.Rect.Min.X
	return 0 <= c && c < vcFitX(dst, src) && 0 <= r && r < vcFitY(dst, src) && r < y
}

func vcApart(dst, src Grid) bool {
	return !vcSameArr(dst.Rune, src.Rune) && !vcSameArr(dst.Attr, src.Attr)
}

//vc:contract copyGrid props=C12 mode=int modular modifies=dst.Rune[],dst.Attr[]
//vc:requires copyGrid
func vcCopyGridPre(dst, src Grid) bool {
	return vcGridWF(dst) && vcGridWF(src) && vcSmall(dst) && vcSmall(src)
}

// Each source cell lands on its destination cell, as far as it has one, and no
// other cell changes.
//
//vc:ensures copyGrid
func vcCopyGridRunes(dst, src, old_dst, old_src Grid) bool {
	return !vcApart(dst, src) || vcAll(0, len(dst.Rune), func(i int) bool {
		return dst.Rune[i] == vcDrawnRune(dst, src, old_dst.Rune, i, vcMaxCoord)
	})
}

//vc:ensures copyGrid
func vcCopyGridAttrs(dst, src, old_dst, old_src Grid) bool {
	return !vcApart(dst, src) || vcAll(0, len(dst.Attr), func(i int) bool {
		return dst.Attr[i] == vcDrawnAttr(dst, src, old_dst.Attr, i, vcMaxCoord)
	})
}

func vcDrawnRune(dst, src Grid, old []rune, i, y int) rune {
	if !vcDrawn(dst, src, i, y) {
		return old[i]
	}
	return src.Rune[vcPeer(dst, src, i)]
}

func vcDrawnAttr(dst, src Grid, old []ansi.SGRAttr, i, y int) ansi.SGRAttr {
	if !vcDrawn(dst, src, i, y) {
		return old[i]
	}
	return src.Attr[vcPeer(dst, src, i)]
}

func vcCopyAt(dst, src Grid, dp, sp ansi.Point, di, si, stride int) bool {
	y := dp.Y - dst.Rect.Min.Y
	return stride == vcFitX(dst, src) && 0 <= y && (y == 0 || y <= vcFitY(dst, src)) && sp.Y-src.Rect.Min.Y == y &&
		vcOffAt(dst, y, di) && vcOffAt(src, y, si)
}

//vc:invariant copyGrid loop0
func vcCopyInv0(dst, src, old_dst Grid, dp, sp ansi.Point, di, si, stride int) bool {
	return vcCopyAt(dst, src, dp, sp, di, si, stride)
}

//vc:invariant copyGrid loop0
func vcCopyInvRunes(dst, src, old_dst Grid, dp ansi.Point) bool {
	return !vcApart(dst, src) || vcAll(0, len(dst.Rune), func(i int) bool {
		return dst.Rune[i] == vcDrawnRune(dst, src, old_dst.Rune, i, dp.Y-dst.Rect.Min.Y)
	})
}

// the row about to be copied is the cells from di on
//
//vc:invariant copyGrid loop0
func vcCopyInvRow0(dst, src Grid, dp ansi.Point, di, si int) bool {
	return vcAll(0, len(dst.Rune), func(i int) bool { return vcInRow(dst, src, dp.Y-1, di, si, i) })
}

//vc:decreases copyGrid loop0
func vcCopyDec0(dst Grid, dp ansi.Point) int { return dst.Rect.Max.Y - dp.Y }

//vc:invariant copyGrid loop1
func vcCopyInv1(dst, src, old_dst Grid, dp, sp ansi.Point, di, si, stride int) bool {
	return vcCopyAt(dst, src, dp, sp, di, si, stride)
}

//vc:invariant copyGrid loop1
func vcCopyInvAttrs(dst, src, old_dst Grid, dp ansi.Point) bool {
	return !vcApart(dst, src) || vcAll(0, len(dst.Attr), func(i int) bool {
		return dst.Attr[i] == vcDrawnAttr(dst, src, old_dst.Attr, i, dp.Y-dst.Rect.Min.Y)
	})
}

// the row about to be copied is the cells from di on
//
//vc:invariant copyGrid loop1
func vcCopyInvRow1(dst, src Grid, dp ansi.Point, di, si int) bool {
	return vcAll(0, len(dst.Attr), func(i int) bool { return vcInRow(dst, src, dp.Y-1, di, si, i) })
}

//vc:decreases copyGrid loop1
func vcCopyDec1(dst Grid, dp ansi.Point) int { return dst.Rect.Max.Y - dp.Y }

// the cell with index i is in row y just if it is in the stride that has offset di
func vcInRow(dst, src Grid, y, di, si, i int) bool {
	if dst.Stride <= 0 || dst.Rect.Empty() || src.Rect.Empty() {
		return true
	}
	base := di - (dst.Rect.Min.X - 1)
	return (vcRow(dst, i) == y) == (base <= i && i < base+dst.Stride) &&
		vcImplies(vcRow(dst, i) == y, vcCol(dst, i) == i-base && vcPeer(dst, src, i) == si+i-di)
}

//vc:contract DrawGrid props=C12 mode=int modular modifies=dst.Rune[],dst.Attr[] dyn=_noopStyle
//vc:requires DrawGrid
func vcDrawGridPre(dst, src Grid, styles []Style) bool {
	return vcGridWF(dst) && vcGridWF(src) && vcSmall(dst) && vcSmall(src) && vcApart(dst, src) && vcAll(0, len(styles), func(i int) bool { return styles[i] != nil && vcStylesFilled(styles[i]) })
}

// what a style makes of the source cell over the destination cell with index i
func vcStyledCell(s Style, dst, src Grid, oldR rune, oldA ansi.SGRAttr, i int) (rune, ansi.SGRAttr) {
	j := vcPeer(dst, src, i)
	r, a := s.Style(ansi.Pt(vcCol(dst, i)+1, vcRow(dst, i)+1), oldR, src.Rune[j], oldA, src.Attr[j])
	return r, a
}

func vcStyledRune(s Style, dst, src, old Grid, i int, drawn bool) rune {
	if drawn {
		if r, _ := vcStyledCell(s, dst, src, old.Rune[i], old.Attr[i], i); r != 0 {
			return r
		}
	}
	return old.Rune[i]
}

func vcStyledAttr(s Style, dst, src, old Grid, i int, drawn bool) ansi.SGRAttr {
	if drawn {
		if r, a := vcStyledCell(s, dst, src, old.Rune[i], old.Attr[i], i); r != 0 {
			return a
		}
	}
	return old.Attr[i]
}

// Without a style each cell is overwritten; with a style, by what the style
// makes of it unless that is no rune.  No other cell changes.
//
//vc:ensures DrawGrid
func vcDrawGridRunes(dst, src, old_dst, old_src Grid, styles []Style) bool {
	s := Styles(styles...)
	return vcAll(0, len(dst.Rune), func(i int) bool {
		if s == NoopStyle {
			return dst.Rune[i] == vcDrawnRune(dst, src, old_dst.Rune, i, vcMaxCoord)
		}
		return dst.Rune[i] == vcStyledRune(s, dst, src, old_dst, i, vcDrawn(dst, src, i, vcMaxCoord))
	})
}

//vc:ensures DrawGrid
func vcDrawGridAttrs(dst, src, old_dst, old_src Grid, styles []Style) bool {
	s := Styles(styles...)
	return vcAll(0, len(dst.Rune), func(i int) bool {
		if s == NoopStyle {
			return dst.Attr[i] == vcDrawnAttr(dst, src, old_dst.Attr, i, vcMaxCoord)
		}
		return dst.Attr[i] == vcStyledAttr(s, dst, src, old_dst, i, vcDrawn(dst, src, i, vcMaxCoord))
	})
}

//vc:invariant DrawGrid loop0
func vcDrawInv0(dst, src, old_dst Grid, dp, sp ansi.Point, di, si int) bool {
	y := dp.Y - dst.Rect.Min.Y
	return 0 <= y && (y == 0 || y <= vcFitY(dst, src)) && sp.Y-src.Rect.Min.Y == y && vcOffAt(dst, y, di) && vcOffAt(src, y, si)
}

//vc:invariant DrawGrid loop1
func vcDrawInv1(dst, src, old_dst Grid, dp, sp ansi.Point, di, si, dii, sii int) bool {
	x, y := dp.X-dst.Rect.Min.X, dp.Y-dst.Rect.Min.Y
	return 0 <= y && y < vcFitY(dst, src) && 0 <= x && (x == 0 || x <= vcFitX(dst, src)) &&
		sp.Y-src.Rect.Min.Y == y && sp.X-src.Rect.Min.X == x &&
		vcOffAt(dst, y, di) && vcOffAt(src, y, si) && dii == di+x && sii == si+x
}

//vc:invariant DrawGrid loop1
func vcDrawInvRow(dst, src Grid, dp ansi.Point, di, si int) bool {
	return vcAll(0, len(dst.Rune), func(i int) bool { return vcInRow(dst, src, dp.Y-1, di, si, i) })
}

//vc:invariant DrawGrid loop0
func vcDrawInvRow0(dst, src Grid, dp ansi.Point, di, si int) bool {
	return vcAll(0, len(dst.Rune), func(i int) bool { return vcInRow(dst, src, dp.Y-1, di, si, i) })
}

//vc:invariant DrawGrid loop0
func vcDrawInvCells0(dst, src, old_dst Grid, style Style, dp ansi.Point) bool {
	return vcAll(0, len(dst.Rune), func(i int) bool {
		d := vcDrawn(dst, src, i, dp.Y-dst.Rect.Min.Y)
		return dst.Rune[i] == vcStyledRune(style, dst, src, old_dst, i, d) && dst.Attr[i] == vcStyledAttr(style, dst, src, old_dst, i, d)
	})
}

//vc:invariant DrawGrid loop1
func vcDrawInvCells1(dst, src, old_dst Grid, style Style, dp ansi.Point, dii int) bool {
	return vcAll(0, len(dst.Rune), func(i int) bool {
		d := vcDrawn(dst, src, i, dp.Y-dst.Rect.Min.Y) || vcDrawn(dst, src, i, dp.Y-dst.Rect.Min.Y+1) && i < dii
		return dst.Rune[i] == vcStyledRune(style, dst, src, old_dst, i, d) && dst.Attr[i] == vcStyledAttr(style, dst, src, old_dst, i, d)
	})
}

//vc:decreases DrawGrid loop0
func vcDrawDec0(dst Grid, dp ansi.Point) int { return dst.Rect.Max.Y - dp.Y }

//vc:decreases DrawGrid loop1
func vcDrawDec1(dst Grid, dp ansi.Point) int { return dst.Rect.Max.X - dp.X }
