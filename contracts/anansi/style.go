package anansi

import "github.com/jcorbin/anansi/ansi"

// ---- styles

//vc:contract StyleFunc.Style props=C25 mode=int
//vc:requires StyleFunc.Style
func vcStyleFuncPre(f StyleFunc) bool { return f != nil }

//vc:ensures StyleFunc.Style
func vcStyleFuncPost(f StyleFunc, p ansi.Point, pr, r rune, pa, a ansi.SGRAttr, ret0 rune, ret1 ansi.SGRAttr) bool {
	er, ea := f(p, pr, r, pa, a)
	return ret0 == er && ret1 == ea
}

//vc:contract _noopStyle.Style props=C25 mode=bv
//vc:ensures _noopStyle.Style
func vcNoopPost(arg2, arg3 rune, pa, a ansi.SGRAttr, ret0 rune, ret1 ansi.SGRAttr) bool {
	return ret0 == arg3 && ret1 == a
}

//vc:contract ZeroRuneStyle.Style props=C25 mode=bv
//vc:ensures ZeroRuneStyle.Style
func vcZeroRunePost(es ZeroRuneStyle, pr, r rune, pa, a ansi.SGRAttr, ret0 rune, ret1 ansi.SGRAttr) bool {
	if r == rune(es) {
		return ret0 == 0 && ret1 == 0
	}
	return ret0 == r && ret1 == a
}

//vc:contract FillRuneStyle.Style props=C25 mode=bv
//vc:ensures FillRuneStyle.Style
func vcFillRunePost(fs FillRuneStyle, pr, r rune, pa, a ansi.SGRAttr, ret0 rune, ret1 ansi.SGRAttr) bool {
	return ret1 == a && ret0 == vcIte(r == 0, rune(fs), r)
}

//vc:contract DefaultRuneStyle.Style props=C25 mode=bv
//vc:ensures DefaultRuneStyle.Style
func vcDefaultRunePost(fs DefaultRuneStyle, pr, r rune, pa, a ansi.SGRAttr, ret0 rune, ret1 ansi.SGRAttr) bool {
	return ret1 == a && ret0 == vcIte(r == 0 && a != 0, rune(fs), r)
}

//vc:contract AttrStyle.Style props=C25 mode=bv
//vc:ensures AttrStyle.Style
func vcAttrStylePost(as AttrStyle, pr, r rune, pa, a ansi.SGRAttr, ret0 rune, ret1 ansi.SGRAttr) bool {
	return ret0 == r && ret1 == vcIte(r == 0, a, ansi.SGRAttr(as))
}

//vc:contract transparentRuneStyle.Style props=C25 mode=bv
//vc:ensures transparentRuneStyle.Style
func vcTransRunePost(pr, r rune, pa, a ansi.SGRAttr, ret0 rune, ret1 ansi.SGRAttr) bool {
	return ret1 == a && ret0 == vcIte(r == 0, pr, r)
}

// The part of the attribute that the style is about comes from the prior one if
// the new one has none; the rest is the new one's.
//
//vc:contract transparentAttrStyle.Style props=C25 mode=bv
//vc:ensures transparentAttrStyle.Style
func vcTransAttrPost(ta transparentAttrStyle, pr, r rune, pa, a ansi.SGRAttr, ret0 rune, ret1 ansi.SGRAttr) bool {
	m := ansi.SGRAttr(ta)
	return ret0 == r && ret1&^m == a&^m && ret1&m == vcIte(a&m == 0, pa&m, a&m)
}

// The transparency styles keep the prior background, the prior foreground and
// text attributes, or both, and nothing else.
//
//vc:lemma props=C25 mode=bv
func vcLemmaTransparent(p ansi.Point, pr, r rune, pa, a ansi.SGRAttr) {
	_, bg := TransparentAttrBG.Style(p, pr, r, pa, a)
	vcAssert("background transparency", bg&^ansi.SGRAttrBGMask == a&^ansi.SGRAttrBGMask && vcImplies(a&ansi.SGRAttrBGMask != 0, bg == a) && vcImplies(a&ansi.SGRAttrBGMask == 0, bg == a|pa&ansi.SGRAttrBGMask))
	m := ansi.SGRAttrFGMask | ansi.SGRAttrMask
	_, fg := TransparentAttrFG.Style(p, pr, r, pa, a)
	vcAssert("foreground transparency", fg&ansi.SGRAttrBGMask == a&ansi.SGRAttrBGMask && vcImplies(a&m != 0, fg == a) && vcImplies(a&m == 0, fg == a|pa&m))
	_, both := TransparentAttrBGFG.Style(p, pr, r, pa, a)
	vcAssert("both transparencies", vcImplies(a == 0, both == pa&(m|ansi.SGRAttrBGMask)))
	er, _ := TransparentBrailleRunes.Style(p, pr, r, pa, a)
	vcAssert("empty braille is transparent", er == vcIte(r == 0x2800, 0, r))
	kr, _ := TransparentRunes.Style(p, pr, r, pa, a)
	vcAssert("no rune is transparent", kr == vcIte(r == 0, pr, r))
}

// the first n styles applied in order
//
//vc:spec
func vcStyleFold(ss styles, n int, p ansi.Point, pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
	if n <= 0 {
		return r, a
	}
	r, a = vcStyleFold(ss, n-1, p, pr, r, pa, a)
	return ss[n-1].Style(p, pr, r, pa, a)
}

//vc:contract styles.Style props=C25 mode=int
//vc:requires styles.Style
func vcStylesStylePre(ss styles) bool { return vcAll(0, len(ss), func(i int) bool { return ss[i] != nil }) }

//vc:ensures styles.Style
func vcStylesStylePost(ss styles, p ansi.Point, pr, old_r rune, pa, old_a ansi.SGRAttr, ret0 rune, ret1 ansi.SGRAttr) bool {
	er, ea := vcStyleFold(ss, len(ss), p, pr, old_r, pa, old_a)
	return ret0 == er && ret1 == ea
}

//vc:invariant styles.Style loop0
func vcStylesStyleInv(ss styles, p ansi.Point, pr, r, old_r rune, pa, a, old_a ansi.SGRAttr, rangeindex int) bool {
	er, ea := vcStyleFold(ss, rangeindex+1, p, pr, old_r, pa, old_a)
	return r == er && a == ea
}

//vc:contract Styles props=C12,C25 mode=int modular det modifies=none
//vc:requires Styles
func vcStylesPre(ss []Style) bool {
	return vcAll(0, len(ss), func(i int) bool { return ss[i] != nil && vcStylesFilled(ss[i]) })
}

// combined styles hold no nil style
func vcStylesFilled(s Style) bool {
	c, ok := s.(styles)
	return !ok || vcAll(0, len(c), func(i int) bool { return c[i] != nil })
}

//vc:ensures Styles
func vcStylesPost(ss []Style, ret Style) bool { return ret != nil }

//vc:ensures Styles
func vcStylesNone(ss []Style, ret Style) bool { return len(ss) != 0 || ret == NoopStyle }

//vc:invariant Styles loop0
func vcStylesInv(res styles, rangeindex int) bool {
	return (len(res) == 0 && cap(res) == 0 || vcFreshArr(res)) && vcAll(0, len(res), func(i int) bool { return res[i] != nil }) &&
		(rangeindex >= 0 || len(res) == 0)
}

type vcStyleCase struct {
	ss    []Style
	p     ansi.Point
	pr, r rune
	pa, a ansi.SGRAttr
}

func vcGenOneStyle(r *vcRand, depth int) Style {
	switch r.Intn(9) {
	case 0:
		return NoopStyle
	case 1:
		return TransparentRunes
	case 2:
		return TransparentAttrBGFG
	case 3:
		return FillRuneStyle(r.Rune())
	case 4:
		return ZeroRuneStyle('a' + rune(r.Intn(3)))
	case 5:
		if depth > 0 {
			return Styles(vcGenOneStyle(r, depth-1), vcGenOneStyle(r, depth-1), vcGenOneStyle(r, depth-1))
		}
	case 6:
		return AttrStyle(ansi.SGRAttr(r.Intn(1 << 12)))
	}
	k := rune(r.Intn(7) + 2)
	return StyleFunc(func(p ansi.Point, pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
		return r*k + pr + rune(p.X), a*ansi.SGRAttr(k) + pa + ansi.SGRAttr(p.Y)
	})
}

//vc:gen
func vcGenStyleCase(r *vcRand) vcStyleCase {
	c := vcStyleCase{p: ansi.Pt(r.Intn(5)+1, r.Intn(5)+1), pr: r.Rune(), r: 'a' + rune(r.Intn(4)), pa: ansi.SGRAttr(r.Intn(1 << 12)), a: ansi.SGRAttr(r.Intn(1 << 12))}
	for n := r.Intn(5); n > 0; n-- {
		c.ss = append(c.ss, vcGenOneStyle(r, 2))
	}
	return c
}

// Combined styles act as each of them in turn.
//
//vc:lemma props=C25,C12 sampled
func vcLemmaStylesInTurn(c vcStyleCase) {
	er, ea := c.r, c.a
	for _, s := range c.ss {
		er, ea = s.Style(c.p, c.pr, er, c.pa, ea)
	}
	r, a := Styles(c.ss...).Style(c.p, c.pr, c.r, c.pa, c.a)
	vcAssert("the rune is what the styles make of it in turn", r == er)
	vcAssert("the attribute is what the styles make of it in turn", a == ea)
	before := append([]Style(nil), c.ss...)
	one := Styles(before...)
	two := Styles(one, ZeroRuneStyle('b'))
	tr, ta := two.Style(c.p, c.pr, c.r, c.pa, c.a)
	Styles(one, StyleFunc(func(p ansi.Point, pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) { return r + 1, a + 1 }), NoopStyle)
	Styles(one, FillRuneStyle('x'), FillRuneStyle('y'))
	tr2, ta2 := two.Style(c.p, c.pr, c.r, c.pa, c.a)
	vcAssert("combining further leaves other combinations as they were", tr == tr2 && ta == ta2)
	r, a = one.Style(c.p, c.pr, c.r, c.pa, c.a)
	vcAssert("combining further leaves a combination as it was", r == er && a == ea)
}
