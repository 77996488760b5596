package anansi

import (
	"image"

	"github.com/jcorbin/anansi/ansi"
)

// ---- bitmaps

// the bounds lie within the bits
func vcBitmapWF(b Bitmap) bool {
	if b.Rect.Empty() {
		return true
	}
	mn, mx := b.Rect.Min, b.Rect.Max
	return 0 <= mn.X && mx.X <= b.Stride && 0 <= mn.Y && mx.Y*b.Stride <= len(b.Bit)
}

func vcSmallBitmap(b Bitmap) bool {
	return b.Stride <= vcMaxCoord && b.Rect.Max.X <= vcMaxCoord && b.Rect.Max.Y <= vcMaxCoord &&
		b.Rect.Min.X >= -vcMaxCoord && b.Rect.Min.Y >= -vcMaxCoord && b.Rect.Min.X <= vcMaxCoord && b.Rect.Min.Y <= vcMaxCoord && b.Rect.Max.X >= -vcMaxCoord && b.Rect.Max.Y >= -vcMaxCoord
}

//vc:gen
func vcGenBitmap(r *vcRand) Bitmap {
	var b Bitmap
	b.Resize(image.Pt(r.Intn(6), r.Intn(9)))
	for i := range b.Bit {
		b.Bit[i] = r.Intn(2) == 0
	}
	if r.Intn(2) == 0 {
		x, y := r.Intn(4), r.Intn(4)
		b = b.SubRect(image.Rect(x, y, x+r.Intn(5), y+r.Intn(6)))
	}
	return b
}

// the bit at x, y
func vcBitAt(b Bitmap, x, y int) bool {
	if x < b.Rect.Min.X || x >= b.Rect.Max.X || y < b.Rect.Min.Y || y >= b.Rect.Max.Y {
		return false
	}
	return b.Bit[y*b.Stride+x]
}

//vc:contract Bitmap.Get props=C13 mode=int modular modifies=none
//vc:requires Bitmap.Get
func vcBitGetPre(bi *Bitmap) bool { return bi != nil && vcBitmapWF(*bi) }

//vc:ensures Bitmap.Get
func vcBitGetPost(bi *Bitmap, p image.Point, ret bool) bool { return ret == vcBitAt(*bi, p.X, p.Y) }

//vc:contract Bitmap.Set props=C13 mode=int modular modifies=bi.Bit[]
//vc:requires Bitmap.Set
func vcBitSetPre(bi *Bitmap) bool { return bi != nil && vcBitmapWF(*bi) }

// Set changes the bit at p and no other; outside of the bounds, nothing.
//
//vc:ensures Bitmap.Set
func vcBitSetPost(bi, old_bi *Bitmap, p image.Point, b bool) bool {
	in := p.X >= bi.Rect.Min.X && p.X < bi.Rect.Max.X && p.Y >= bi.Rect.Min.Y && p.Y < bi.Rect.Max.Y
	at := p.Y*bi.Stride + p.X
	return vcAll(0, len(bi.Bit), func(i int) bool {
		if in && i == at {
			return bi.Bit[i] == b
		}
		return bi.Bit[i] == old_bi.Bit[i]
	}) && (!in || 0 <= at && at < len(bi.Bit) && bi.Bit[at] == b)
}

func vcBit(set bool, v rune) rune { return vcIte(set, v, 0) }

// the braille rune of the 2 by 4 bits at x, y
func vcBraille(b Bitmap, x, y int) rune {
	if x < b.Rect.Min.X || x >= b.Rect.Max.X || y < b.Rect.Min.Y || y >= b.Rect.Max.Y {
		return 0x2800
	}
	return 0x2800 +
		vcBit(vcBitAt(b, x, y), 1) + vcBit(vcBitAt(b, x, y+1), 2) + vcBit(vcBitAt(b, x, y+2), 4) +
		vcBit(vcBitAt(b, x+1, y), 8) + vcBit(vcBitAt(b, x+1, y+1), 0x10) + vcBit(vcBitAt(b, x+1, y+2), 0x20) +
		vcBit(vcBitAt(b, x, y+3), 0x40) + vcBit(vcBitAt(b, x+1, y+3), 0x80)
}

//vc:contract Bitmap.Rune props=C12,C13 mode=int modular modifies=none
//vc:requires Bitmap.Rune
func vcBitRunePre(bi *Bitmap, p image.Point) bool { return bi != nil && vcBitmapWF(*bi) && vcSmallBitmap(*bi) }

//vc:ensures Bitmap.Rune
func vcBitRunePost(bi *Bitmap, p image.Point, ret rune) bool { return ret == vcBraille(*bi, p.X, p.Y) }

//vc:contract Bitmap.SubRect props=C13 mode=int modular modifies=none
//vc:requires Bitmap.SubRect
func vcBitSubPre(bi Bitmap) bool { return vcBitmapWF(bi) }

// A sub-bitmap shares the bits and has no bound outside of the receiver's.
//
//vc:ensures Bitmap.SubRect
func vcBitSubPost(bi Bitmap, r image.Rectangle, ret Bitmap) bool {
	if !r.Min.In(bi.Rect) {
		return len(ret.Bit) == 0 && ret.Rect.Min.X == 0 && ret.Rect.Min.Y == 0 && ret.Rect.Max.X == 0 && ret.Rect.Max.Y == 0
	}
	return vcBitmapWF(ret) && vcSameArr(ret.Bit, bi.Bit) && len(ret.Bit) == len(bi.Bit) && ret.Stride == bi.Stride && ret.Rect.Min == r.Min &&
		ret.Rect.Max.X == vcClamp(r.Max.X, r.Min.X, bi.Rect.Max.X) && ret.Rect.Max.Y == vcClamp(r.Max.Y, r.Min.Y, bi.Rect.Max.Y)
}

//vc:contract Bitmap.SubAt props=C13 mode=int
//vc:requires Bitmap.SubAt
func vcBitSubAtPre(bi Bitmap) bool { return vcBitmapWF(bi) }

//vc:ensures Bitmap.SubAt
func vcBitSubAtPost(bi Bitmap, at image.Point, ret Bitmap) bool {
	return vcBitSubPost(bi, image.Rectangle{Min: at, Max: bi.Rect.Max}, ret)
}

//vc:contract Bitmap.SubSize props=C13 mode=int
//vc:requires Bitmap.SubSize
func vcBitSubSizePre(bi Bitmap, sz image.Point) bool {
	return vcBitmapWF(bi) && vcSmallBitmap(bi) && -vcMaxCoord <= sz.X && sz.X <= vcMaxCoord && -vcMaxCoord <= sz.Y && sz.Y <= vcMaxCoord
}

//vc:ensures Bitmap.SubSize
func vcBitSubSizePost(bi Bitmap, sz image.Point, ret Bitmap) bool {
	mn := bi.Rect.Min
	return vcBitSubPost(bi, image.Rectangle{Min: mn, Max: image.Pt(mn.X+sz.X, mn.Y+sz.Y)}, ret)
}

//vc:contract Bitmap.Resize props=C13 mode=int
//vc:requires Bitmap.Resize
func vcBitResizePre(bi *Bitmap, sz image.Point) bool {
	return bi != nil && 0 <= sz.X && sz.X <= 1<<20 && 0 <= sz.Y && sz.Y <= 1<<20
}

//vc:ensures Bitmap.Resize
func vcBitResizePost(bi *Bitmap, sz image.Point) bool {
	return vcBitmapWF(*bi) && bi.Stride == sz.X && bi.Rect.Min.X == 0 && bi.Rect.Min.Y == 0 && bi.Rect.Max == sz && len(bi.Bit) == sz.X*sz.Y &&
		vcAll(0, len(bi.Bit), func(i int) bool { return !bi.Bit[i] })
}

//vc:contract Bitmap.RuneSize props=C13 mode=int
//vc:requires Bitmap.RuneSize
func vcBitRuneSizePre(bi *Bitmap) bool {
	return bi != nil && vcSmallBitmap(*bi) && bi.Rect.Min.X <= bi.Rect.Max.X && bi.Rect.Min.Y <= bi.Rect.Max.Y
}

// RuneSize is the least size whose runes cover the bits.
//
//vc:ensures Bitmap.RuneSize
func vcBitRuneSizeLeast(bi *Bitmap, ret image.Point) bool {
	w, h := bi.Rect.Max.X-bi.Rect.Min.X, bi.Rect.Max.Y-bi.Rect.Min.Y
	return 2*ret.X >= w && 2*(ret.X-1) < w && 4*ret.Y >= h && 4*(ret.Y-1) < h
}

//vc:contract Bitmap.Load props=C13 mode=int
//vc:requires Bitmap.Load
func vcBitLoadPre(bi *Bitmap, stride int, data []bool) bool {
	return bi != nil && 0 <= stride && stride <= 1<<20 && len(data) <= 1<<20
}

// Load takes the bits row by row, and pads the last row.
//
//vc:ensures Bitmap.Load
func vcBitLoadPost(bi *Bitmap, stride int, old_data []bool) bool {
	r := bi.Rect
	if r.Min.X != 0 || r.Min.Y != 0 || r.Max.X != stride || bi.Stride != stride || !vcBitmapWF(*bi) {
		return false
	}
	if stride == 0 {
		return r.Max.Y == 0
	}
	n := r.Max.Y * stride
	return n >= len(old_data) && n-len(old_data) < stride && len(bi.Bit) == n &&
		vcAll(0, n, func(i int) bool {
			if i < len(old_data) {
				return bi.Bit[i] == old_data[i]
			}
			return !bi.Bit[i]
		})
}

//vc:invariant Bitmap.Load loop0
func vcBitLoadInv(data, old_data []bool, stride, h int) bool {
	return len(data) >= len(old_data) && len(data) <= h*stride && vcAll(0, len(data), func(i int) bool {
		if i < len(old_data) {
			return data[i] == old_data[i]
		}
		return !data[i]
	})
}

//vc:decreases Bitmap.Load loop0
func vcBitLoadDec(data []bool, stride, h int) int { return h*stride - len(data) }

// ---- drawing a bitmap into a grid

//vc:contract DrawBitmap props=C12 mode=int modular modifies=dst.Rune[],dst.Attr[]
//vc:requires DrawBitmap
func vcDrawBitmapPre(dst Grid, src Bitmap, styles []Style) bool {
	return vcGridWF(dst) && vcSmall(dst) && vcBitmapWF(src) && vcSmallBitmap(src) && vcAll(0, len(styles), func(i int) bool { return styles[i] != nil && vcStylesFilled(styles[i]) })
}

// the destination cell with index i is drawn by the time row y starts
func vcBitDrawn(dst Grid, src Bitmap, i, y int) bool {
	if dst.Stride <= 0 {
		return false
	}
	r, c := vcRow(dst, i)+1-dst.Rect.Min.Y, vcCol(dst, i)+1-dst.Rect.Min.X
	return 0 <= c && c < dst.Rect.Max.X-dst.Rect.Min.X && 2*c < src.Rect.Max.X-src.Rect.Min.X &&
		0 <= r && r < dst.Rect.Max.Y-dst.Rect.Min.Y && 4*r < src.Rect.Max.Y-src.Rect.Min.Y && r < y
}

func vcBitStyled(s Style, dst Grid, src Bitmap, old Grid, i int) (rune, ansi.SGRAttr) {
	y, x := vcRow(dst, i)+1, vcCol(dst, i)+1
	b := vcBraille(src, src.Rect.Min.X+2*(x-dst.Rect.Min.X), src.Rect.Min.Y+4*(y-dst.Rect.Min.Y))
	r, a := s.Style(ansi.Pt(x, y), old.Rune[i], b, old.Attr[i], old.Attr[i])
	return r, a
}

func vcBitStyledRune(s Style, dst Grid, src Bitmap, old Grid, i int, drawn bool) rune {
	if drawn {
		if r, _ := vcBitStyled(s, dst, src, old, i); r != 0 {
			return r
		}
	}
	return old.Rune[i]
}

func vcBitStyledAttr(s Style, dst Grid, src Bitmap, old Grid, i int, drawn bool) ansi.SGRAttr {
	if drawn {
		if r, a := vcBitStyled(s, dst, src, old, i); r != 0 {
			return a
		}
	}
	return old.Attr[i]
}

// Each cell that has bits gets what the style makes of their braille rune,
// unless that is no rune.  No other cell changes.
//
//vc:ensures DrawBitmap
func vcDrawBitmapPost(dst, old_dst Grid, src Bitmap, styles []Style) bool {
	s := Styles(styles...)
	return vcAll(0, len(dst.Rune), func(i int) bool {
		d := vcBitDrawn(dst, src, i, vcMaxCoord)
		return dst.Rune[i] == vcBitStyledRune(s, dst, src, old_dst, i, d) && dst.Attr[i] == vcBitStyledAttr(s, dst, src, old_dst, i, d)
	})
}

//vc:invariant DrawBitmap loop0
func vcDrawBitmapInv0(dst Grid, src Bitmap, gp ansi.Point, bp image.Point) bool {
	y := gp.Y - dst.Rect.Min.Y
	return 0 <= y && bp.Y == src.Rect.Min.Y+4*y && (y == 0 || bp.Y < src.Rect.Max.Y+4)
}

//vc:invariant DrawBitmap loop0
func vcDrawBitmapCells0(dst, old_dst Grid, src Bitmap, style Style, gp ansi.Point) bool {
	return vcAll(0, len(dst.Rune), func(i int) bool {
		d := vcBitDrawn(dst, src, i, gp.Y-dst.Rect.Min.Y)
		return dst.Rune[i] == vcBitStyledRune(style, dst, src, old_dst, i, d) && dst.Attr[i] == vcBitStyledAttr(style, dst, src, old_dst, i, d)
	})
}

//vc:invariant DrawBitmap loop1
func vcDrawBitmapInv1(dst Grid, src Bitmap, gp ansi.Point, bp image.Point) bool {
	x, y := gp.X-dst.Rect.Min.X, gp.Y-dst.Rect.Min.Y
	return 0 <= y && bp.Y == src.Rect.Min.Y+4*y && bp.Y < src.Rect.Max.Y &&
		0 <= x && bp.X == src.Rect.Min.X+2*x && (x == 0 || bp.X < src.Rect.Max.X+2 && gp.X <= dst.Rect.Max.X)
}

//vc:invariant DrawBitmap loop1
func vcDrawBitmapCells1(dst, old_dst Grid, src Bitmap, style Style, gp ansi.Point) bool {
	return vcAll(0, len(dst.Rune), func(i int) bool {
		y := gp.Y - dst.Rect.Min.Y
		d := vcBitDrawn(dst, src, i, y) || vcBitDrawn(dst, src, i, y+1) && vcCol(dst, i)+1 < gp.X
		return dst.Rune[i] == vcBitStyledRune(style, dst, src, old_dst, i, d) && dst.Attr[i] == vcBitStyledAttr(style, dst, src, old_dst, i, d)
	})
}

//vc:decreases DrawBitmap loop0
func vcDrawBitmapDec0(src Bitmap, bp image.Point) int { return src.Rect.Max.Y - bp.Y }

//vc:decreases DrawBitmap loop1
func vcDrawBitmapDec1(src Bitmap, bp image.Point) int { return src.Rect.Max.X - bp.X }
