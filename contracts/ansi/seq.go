package ansi

import "strconv"


// ---- sequences
//
// A sequence is its identifier, its argument bytes and its argument integers;
// vcSeqByte and vcSeqInt read them wherever they are kept.

func vcSeqByte(st [numStaticBytes]byte, extra []byte, i int) byte {
	if i < numStaticBytes {
		return st[i]
	}
	return extra[i-numStaticBytes]
}

func vcSeqInt(st [numStaticInts]int, extra []int, i int) int {
	if i < numStaticInts {
		return st[i]
	}
	return extra[i-numStaticInts]
}

func vcByteOf(s Seq, i int) byte { return vcSeqByte(s.argBytes, s.argExtraBytes, i) }
func vcIntOf(s Seq, i int) int   { return vcSeqInt(s.argInts, s.argExtraInts, i) }

func vcMax(a, b int) int { return vcIte(a > b, a, b) }

func vcSeqID(id Escape) bool {
	return id >= 1 && id <= 0x1f || id >= 0xEF01 && id <= 0xEF7E || id >= 0xEF81 && id <= 0xEFFE
}

func vcSeqWF(s Seq) bool {
	return s.numBytes >= 0 && s.numInts >= 0 &&
		len(s.argExtraBytes) == vcMax(0, s.numBytes-numStaticBytes) &&
		len(s.argExtraInts) == vcMax(0, s.numInts-numStaticInts) &&
		(s.id == 0 && s.numBytes == 0 && s.numInts == 0 || vcSeqID(s.id))
}

func vcSameBytes(a, b Seq) bool {
	return a.numBytes == b.numBytes && vcAll(0, a.numBytes, func(i int) bool { return vcByteOf(a, i) == vcByteOf(b, i) })
}

func vcSameInts(a, b Seq) bool {
	return a.numInts == b.numInts && vcAll(0, a.numInts, func(i int) bool { return vcIntOf(a, i) == vcIntOf(b, i) })
}

// nothing any holder of s could see, or could come to see, has changed
func vcSeqKept(s, old Seq) bool {
	b, ob := s.argExtraBytes[:cap(s.argExtraBytes)], old.argExtraBytes[:cap(old.argExtraBytes)]
	n, on := s.argExtraInts[:cap(s.argExtraInts)], old.argExtraInts[:cap(old.argExtraInts)]
	return vcAll(0, len(ob), func(i int) bool { return b[i] == ob[i] }) &&
		vcAll(0, len(on), func(i int) bool { return n[i] == on[i] })
}

//vc:contract Seq.With props=C08 mode=int modular
//vc:requires Seq.With
func vcSeqWithPre(seq Seq) bool { return vcSeqWF(seq) && seq.id != 0 }

//vc:ensures Seq.With
func vcSeqWithPost(seq, old_seq Seq, arg []byte, ret Seq) bool {
	n := old_seq.numBytes
	return vcSeqWF(ret) && ret.id == old_seq.id && ret.numBytes == n+len(arg) &&
		vcAll(0, n, func(i int) bool { return vcByteOf(ret, i) == vcByteOf(old_seq, i) }) &&
		vcAll(0, len(arg), func(i int) bool { return vcByteOf(ret, n+i) == arg[i] }) &&
		vcSameInts(ret, old_seq)
}

//vc:ensures Seq.With
func vcSeqWithKept(seq, old_seq Seq) bool { return vcSeqKept(seq, old_seq) }

//vc:invariant Seq.With loop0
func vcSeqWithInv0(seq, old_seq Seq, arg []byte, i, n int) bool {
	return 0 <= i && i <= len(arg) && n == old_seq.numBytes+i && (i == 0 || n <= numStaticBytes) &&
		seq.id == old_seq.id && seq.numBytes == old_seq.numBytes && seq.numInts == old_seq.numInts &&
		len(seq.argExtraBytes) == len(old_seq.argExtraBytes) &&
		vcAll(0, old_seq.numBytes, func(j int) bool { return vcByteOf(seq, j) == vcByteOf(old_seq, j) }) &&
		vcAll(0, i, func(j int) bool { return vcByteOf(seq, old_seq.numBytes+j) == arg[j] })
}

//vc:invariant Seq.With loop1
func vcSeqWithInv1(seq, old_seq, now_seq Seq, arg []byte, i, n int) bool {
	return 0 <= i && i <= len(arg) && n == old_seq.numBytes+i && (i == len(arg) || n >= numStaticBytes) &&
		(i == len(arg) || vcFreshArr(seq.argExtraBytes)) && vcSeqKept(now_seq, old_seq) &&
		seq.id == old_seq.id && seq.numBytes == old_seq.numBytes && seq.numInts == old_seq.numInts &&
		len(seq.argExtraBytes) == vcMax(0, n-numStaticBytes) &&
		vcAll(0, old_seq.numBytes, func(j int) bool { return vcByteOf(seq, j) == vcByteOf(old_seq, j) }) &&
		vcAll(0, i, func(j int) bool { return vcByteOf(seq, old_seq.numBytes+j) == arg[j] })
}

//vc:contract Seq.WithInts props=C08 mode=int modular
//vc:requires Seq.WithInts
func vcSeqWithIntsPre(seq Seq) bool { return vcSeqWF(seq) }

//vc:panics Seq.WithInts
func vcSeqWithIntsPanics(seq Seq, args []int) bool {
	return len(args) > 0 && !(seq.id >= 0xEF81 && seq.id <= 0xEFFE)
}

//vc:ensures Seq.WithInts
func vcSeqWithIntsPost(seq, old_seq Seq, args []int, ret Seq) bool {
	n := old_seq.numInts
	return vcSeqWF(ret) && ret.id == old_seq.id && ret.numInts == n+len(args) &&
		vcAll(0, n, func(i int) bool { return vcIntOf(ret, i) == vcIntOf(old_seq, i) }) &&
		vcAll(0, len(args), func(i int) bool { return vcIntOf(ret, n+i) == args[i] }) &&
		vcSameBytes(ret, old_seq)
}

//vc:ensures Seq.WithInts
func vcSeqWithIntsKept(seq, old_seq Seq) bool { return vcSeqKept(seq, old_seq) }

//vc:invariant Seq.WithInts loop0
func vcSeqWithIntsInv0(seq, old_seq Seq, args []int, i, n int) bool {
	return 0 <= i && i <= len(args) && n == old_seq.numInts+i && (i == 0 || n <= numStaticInts) &&
		seq.id == old_seq.id && seq.numInts == old_seq.numInts && seq.numBytes == old_seq.numBytes &&
		len(seq.argExtraInts) == len(old_seq.argExtraInts) &&
		vcAll(0, old_seq.numInts, func(j int) bool { return vcIntOf(seq, j) == vcIntOf(old_seq, j) }) &&
		vcAll(0, i, func(j int) bool { return vcIntOf(seq, old_seq.numInts+j) == args[j] })
}

//vc:invariant Seq.WithInts loop1
func vcSeqWithIntsInv1(seq, old_seq, now_seq Seq, args []int, i, n int) bool {
	return 0 <= i && i <= len(args) && n == old_seq.numInts+i && (i == len(args) || n >= numStaticInts) &&
		(i == len(args) || vcFreshArr(seq.argExtraInts)) && vcSeqKept(now_seq, old_seq) &&
		seq.id == old_seq.id && seq.numInts == old_seq.numInts && seq.numBytes == old_seq.numBytes &&
		len(seq.argExtraInts) == vcMax(0, n-numStaticInts) &&
		vcAll(0, old_seq.numInts, func(j int) bool { return vcIntOf(seq, j) == vcIntOf(old_seq, j) }) &&
		vcAll(0, i, func(j int) bool { return vcIntOf(seq, old_seq.numInts+j) == args[j] })
}

//vc:contract Seq.WithPoint props=C08 mode=int
//vc:requires Seq.WithPoint
func vcSeqWithPointPre(seq Seq) bool { return vcSeqWF(seq) }

//vc:panics Seq.WithPoint
func vcSeqWithPointPanics(seq Seq) bool { return !(seq.id >= 0xEF81 && seq.id <= 0xEFFE) }

//vc:ensures Seq.WithPoint
func vcSeqWithPointPost(seq, old_seq Seq, p Point, ret Seq) bool {
	n := old_seq.numInts
	return vcSeqWF(ret) && ret.id == old_seq.id && ret.numInts == n+2 &&
		vcAll(0, n, func(i int) bool { return vcIntOf(ret, i) == vcIntOf(old_seq, i) }) &&
		vcIntOf(ret, n) == p.Y && vcIntOf(ret, n+1) == p.X && vcSameBytes(ret, old_seq) && vcSeqKept(seq, old_seq)
}

// ---- from identifiers

//vc:contract Escape.With props=C08 mode=int
//vc:panics Escape.With
func vcEscapeWithPanics(id Escape) bool { return !vcSeqID(id) }

//vc:ensures Escape.With
func vcEscapeWithPost(id Escape, arg []byte, ret Seq) bool {
	return vcSeqWF(ret) && ret.ID() == id && ret.numBytes == len(arg) && ret.numInts == 0 &&
		vcAll(0, len(arg), func(i int) bool { return vcByteOf(ret, i) == arg[i] })
}

//vc:contract Escape.WithInts props=C08 mode=int
//vc:panics Escape.WithInts
func vcEscapeWithIntsPanics(id Escape, args []int) bool {
	return !vcSeqID(id) || len(args) > 0 && !(id >= 0xEF81 && id <= 0xEFFE)
}

//vc:ensures Escape.WithInts
func vcEscapeWithIntsPost(id Escape, args []int, ret Seq) bool {
	return vcSeqWF(ret) && ret.ID() == id && ret.numInts == len(args) && ret.numBytes == 0 &&
		vcAll(0, len(args), func(i int) bool { return vcIntOf(ret, i) == args[i] })
}

//vc:contract Escape.WithPoint props=C08 mode=int
//vc:panics Escape.WithPoint
func vcEscapeWithPointPanics(id Escape) bool { return !(id >= 0xEF81 && id <= 0xEFFE) }

//vc:ensures Escape.WithPoint
func vcEscapeWithPointPost(id Escape, p Point, ret Seq) bool {
	return vcSeqWF(ret) && ret.ID() == id && ret.numInts == 2 && ret.numBytes == 0 &&
		vcIntOf(ret, 0) == p.Y && vcIntOf(ret, 1) == p.X
}

//vc:gen
func vcGenSeq(r *vcRand) Seq {
	var s Seq
	switch r.Intn(9) {
	case 0:
		if r.Intn(3) == 0 {
			return s
		}
		s = Escape(1 + r.Intn(31)).With()
	case 1:
		s = Escape(0xEF20 + r.Intn(16)).With(byte(r.next()))
		return s
	case 2:
		s = Escape(0xEF01 + r.Intn(0x7e)).With()
	default:
		s = Escape(0xEF81 + r.Intn(0x7e)).With()
	}
	for i := r.Intn(4); i > 0; i-- {
		b := make([]byte, r.Intn(6))
		for j := range b {
			b[j] = byte(r.next())
		}
		s = s.With(b...)
		if s.id > 0xEF80 {
			n := make([]int, r.Intn(6))
			for j := range n {
				n[j] = int(r.Int64())
			}
			s = s.WithInts(n...)
		}
	}
	return s
}

// ---- emission

func vcIntText(s Seq, k int) string { return strconv.Itoa(vcIntOf(s, k)) }

// where integer k is written, relative to the first one
//
//vc:spec
func vcIntPos(s Seq, k int) int {
	if k <= 0 {
		return 0
	}
	return vcIntPos(s, k-1) + len(vcIntText(s, k-1)) + 1
}

// length of the first n integers with the separators between them
func vcIntsLen(s Seq, n int) int { return vcIte(n <= 0, 0, vcIntPos(s, n)-1) }

// the integers before n end before integer n
func vcIntsRoom(s Seq, n int) bool {
	return vcAll(0, n, func(k int) bool {
		o := vcIntPos(s, k)
		return o >= 0 && o+len(vcIntText(s, k))+1 <= vcIntPos(s, n)
	})
}

// the first n integers are written at p[at:]
func vcIntsAt(p []byte, at int, s Seq, n int) bool {
	return len(p) >= at+vcIntsLen(s, n) && vcAll(0, n, func(k int) bool {
		t := vcIntText(s, k)
		o := vcIntPos(s, k)
		return vcAll(0, len(t), func(j int) bool { return p[at+o+j] == t[j] })
	})
}

// ... separated by ';'
func vcSepsAt(p []byte, at int, s Seq, n int) bool {
	return vcAll(1, n, func(k int) bool { return p[at+vcIntPos(s, k)-1] == ';' })
}

//vc:contract Seq.appendArgNums props=C08 mode=int modular modifies=p[] timeout=60
//vc:requires Seq.appendArgNums
func vcArgNumsPre(seq Seq) bool { return vcSeqWF(seq) }

//vc:ensures Seq.appendArgNums
func vcArgNumsPost(seq Seq, p, old_p, ret []byte) bool {
	return len(ret) == len(p)+vcIntsLen(seq, seq.numInts) && vcPrefixKept(old_p, ret) &&
		vcIntsRoom(seq, seq.numInts) && vcIntsAt(ret, len(p), seq, seq.numInts) &&
		vcSepsAt(ret, len(p), seq, seq.numInts) && vcIntPos(seq, seq.numInts) <= 21*seq.numInts
}

//vc:invariant Seq.appendArgNums loop0
func vcArgNumsInv0(seq Seq, p, old_p []byte, i, ni int) bool {
	return 1 <= i && i <= ni && ni == seq.numInts && len(p) == len(old_p)+vcIntsLen(seq, i) && vcIntPos(seq, i) <= 21*i
}

//vc:invariant Seq.appendArgNums loop0
func vcArgNumsKept0(p, old_p []byte) bool { return vcPrefixKept(old_p, p) }

//vc:invariant Seq.appendArgNums loop0
func vcArgNumsText0(seq Seq, p, old_p []byte, i int) bool { return vcIntsAt(p, len(old_p), seq, i) }

//vc:invariant Seq.appendArgNums loop1
func vcArgNumsInv1(seq Seq, p, old_p []byte, i, ni int) bool {
	return 1 <= i && i <= ni && ni == seq.numInts && (i == ni || i >= numStaticInts) && len(p) == len(old_p)+vcIntsLen(seq, i) && vcIntPos(seq, i) <= 21*i
}

//vc:invariant Seq.appendArgNums loop1
func vcArgNumsKept1(p, old_p []byte) bool { return vcPrefixKept(old_p, p) }

//vc:invariant Seq.appendArgNums loop1
func vcArgNumsText1(seq Seq, p, old_p []byte, i int) bool { return vcIntsAt(p, len(old_p), seq, i) }

//vc:invariant Seq.appendArgNums loop0
func vcArgNumsRoom0(seq Seq, i int) bool { return vcIntsRoom(seq, i) }

//vc:invariant Seq.appendArgNums loop0
func vcArgNumsSeps0(seq Seq, p, old_p []byte, i int) bool { return vcSepsAt(p, len(old_p), seq, i) }

//vc:invariant Seq.appendArgNums loop1
func vcArgNumsRoom1(seq Seq, i int) bool { return vcIntsRoom(seq, i) }

//vc:invariant Seq.appendArgNums loop1
func vcArgNumsSeps1(seq Seq, p, old_p []byte, i int) bool { return vcSepsAt(p, len(old_p), seq, i) }


//vc:contract Seq.appendArgBytes props=C08 mode=int modular modifies=p[]
//vc:requires Seq.appendArgBytes
func vcArgBytesPre(seq Seq) bool { return vcSeqWF(seq) }

//vc:ensures Seq.appendArgBytes
func vcArgBytesPost(seq Seq, p, old_p, ret []byte) bool {
	return len(ret) == len(p)+seq.numBytes && vcPrefixKept(old_p, ret) &&
		vcAll(0, seq.numBytes, func(i int) bool { return ret[len(p)+i] == vcByteOf(seq, i) })
}

//vc:ensures Seq.appendArgBytes
func vcArgBytesOwn(p, ret []byte) bool { return vcSameArr(ret, p) || vcFreshArr(ret) }

//vc:ensures Seq.appendArgNums
func vcArgNumsOwn(p, ret []byte) bool { return vcSameArr(ret, p) || vcFreshArr(ret) }

// A sequence is written as its introducer, its argument bytes, its integers
// separated by ';', and its final byte. Character set selection instead puts
// the argument bytes last.
//
//vc:contract Seq.AppendTo props=C08 mode=int
//vc:requires Seq.AppendTo
func vcSeqAppendPre(seq Seq) bool {
	return vcSeqWF(seq) && vcImplies(seq.id < 0xEF81, seq.numInts == 0)
}

func vcIsCSI(id Escape) bool { return id >= 0xEF81 && id <= 0xEFFE }
func vcIsSel(id Escape) bool { return id >= 0xEF20 && id <= 0xEF2F }

// where the arguments of a sequence start
func vcSeqLead(id Escape) int {
	return vcIte(id <= 0x1f, 1, vcIte(vcIsCSI(id) || vcIsSel(id), 2, 1))
}

//vc:ensures Seq.AppendTo
func vcSeqAppendLen(seq Seq, p, old_p, ret []byte) bool {
	n := vcSeqLead(seq.id) + seq.numBytes + vcIntsLen(seq, seq.numInts) + vcIte(seq.id <= 0x1f || vcIsSel(seq.id), 0, 1)
	return len(ret) == len(p)+vcIte(seq.id == 0, 0, n) && vcPrefixKept(old_p, ret)
}

//vc:ensures Seq.AppendTo
func vcSeqAppendLead(seq Seq, p, ret []byte) bool {
	at, id := len(p), seq.id
	if id == 0 {
		return true
	}
	if id <= 0x1f {
		return ret[at] == byte(id)
	}
	return ret[at] == 0x1b
}

//vc:ensures Seq.AppendTo
func vcSeqAppendIntro(seq Seq, p, ret []byte) bool {
	at, id := len(p), seq.id
	return (!vcIsCSI(id) || ret[at+1] == '[') && (!vcIsSel(id) || ret[at+1] == byte(id-0xEF00))
}

//vc:ensures Seq.AppendTo
func vcSeqAppendFinal(seq Seq, p, ret []byte) bool {
	return seq.id <= 0x1f || vcIsSel(seq.id) || ret[len(ret)-1] == byte(seq.id&0x7f)
}

//vc:ensures Seq.AppendTo
func vcSeqAppendBytes(seq Seq, p, ret []byte) bool {
	a := len(p) + vcSeqLead(seq.id)
	return seq.id == 0 || vcAll(0, seq.numBytes, func(i int) bool { return ret[a+i] == vcByteOf(seq, i) })
}

//vc:ensures Seq.AppendTo
func vcSeqAppendInts(seq Seq, p, ret []byte) bool {
	a := len(p) + vcSeqLead(seq.id) + seq.numBytes
	return seq.id == 0 || vcIntsAt(ret, a, seq, seq.numInts) && vcSepsAt(ret, a, seq, seq.numInts)
}

//vc:ensures Seq.AppendTo
func vcSeqAppendFits(seq Seq, p, ret []byte) bool { return len(ret)-len(p) <= seq.Size() }

//vc:contract Seq.Size props=C08 mode=int
//vc:requires Seq.Size
func vcSeqSizePre(seq Seq) bool { return vcSeqWF(seq) }

//vc:ensures Seq.Size
func vcSeqSizePost(seq Seq, ret int) bool {
	return ret >= 0 && vcImplies(seq.id == 0, ret == 0)
}

//vc:case Seq.AppendTo
func vcSeqNone(seq Seq) bool { return seq.id == 0 }

//vc:case Seq.AppendTo
func vcSeqC0(seq Seq) bool { return seq.id <= 0x1f }

//vc:case Seq.AppendTo
func vcSeqCSI(seq Seq) bool { return vcIsCSI(seq.id) }

//vc:case Seq.AppendTo
func vcSeqSel(seq Seq) bool { return vcIsSel(seq.id) }
