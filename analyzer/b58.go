// Loops that fold base58 digits into a big-endian number.
package main

import "math/big"

const b58Alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// b58Fold: t is the L-byte big-endian value of the first n base58 digits of
// src, as long as that value fits: one step computes exactly 58*value+digit
// (shown by expanding x mod 256 to x - 256*(x div 256), which telescopes).
// over(k) is the most significant byte before reduction, digit(k) the digit.
func b58Fold(t *Term) (src, digit, over *Term, k *Term, acc *Term, L int) {
	if t.op != OFold {
		return
	}
	_, inits, kk, accs, bodies := openFold(t)
	if len(accs) != 1 || inits[0].op != OLit || len(inits[0].s) == 0 || len(inits[0].s) > 64 {
		return
	}
	n := len(inits[0].s)
	for i := 0; i < n; i++ {
		if inits[0].s[i] != 0 {
			return
		}
	}
	var els []*Term
	for _, p := range seqParts(bodies[0]) {
		if p.op != OUnit || p.args[0].sort != SInt {
			return
		}
		els = append(els, p.args[0])
	}
	if len(els) != n {
		return
	}
	if els[0].op == OMod && els[0].k.Int64() == 256 {
		els[0] = els[0].args[0] // what would be lost is refuted by over <= 255
	}
	sum := t0
	w := big.NewInt(1)
	for j := n - 1; j >= 0; j-- {
		sum = add(sum, mulc(expandMod(els[j], 256, 40), w))
		sum = sub(sum, mulc(mkAt(accs[0], mkInt(int64(j))), new(big.Int).Mul(w, big.NewInt(58))))
		w = new(big.Int).Mul(w, big.NewInt(256))
	}
	if sum.op != OUf || sum.s != "indexbyte" || sum.args[0].op != OLit || sum.args[0].s != b58Alphabet {
		return
	}
	at := sum.args[1]
	if at.op != OAt || at.args[1] != kk || containsTerm(at.args[0], kk) || containsTerm(at.args[0], accs[0]) {
		return
	}
	return at.args[0], sum, els[0], kk, accs[0], n
}

// expandMod rewrites x mod m to x - m*(x div m) in a linear form.
func expandMod(t *Term, m int64, d int) *Term {
	l := linOf(t)
	r := mkBig(l.c)
	for _, mo := range l.m {
		a := mo.a
		if d > 0 && a.op == OMod && a.k.Cmp(big.NewInt(m)) == 0 {
			x := a.args[0]
			a = sub(expandMod(x, m, d-1), mulc(mkDiv(x, a.k), a.k))
		}
		r = add(r, mulc(a, mo.c))
	}
	return r
}

// b58Leaf: what is known about a leaf that folds base58 digits. When the text
// decodes to as many bytes as the number holds, every digit is valid, nothing
// overflows, and the number is the decoded text.
type b58Leaf struct {
	lf          *leaf
	dec         *Term
	src         *Term
	digit, over *Term
	k, acc      *Term
}

func (s *summary) findB58() []b58Leaf {
	var r []b58Leaf
	for _, lf := range s.live() {
		if lf.closed == nil {
			continue
		}
		src, digit, over, k, acc, L := b58Fold(lf.closed)
		if src == nil {
			continue
		}
		if n, _, _, _, _ := foldParts(lf.closed); n != s.k {
			continue
		}
		ln := mkUfInt("b58dec.len", b0, maxLen, src)
		c := mkIntEq(ln, mkInt(int64(L)))
		switch s.p0.st.f.decide(s.p0.st.norm(c)) {
		case 0:
			need("base58 length", c, mkNot(c))
		case 1:
			r = append(r, b58Leaf{lf, ufSeq("b58dec", ln, src), src, digit, over, k, acc})
		}
	}
	return r
}

// b58Facts: iteration k of a text that decodes.
func (s *summary) b58Facts(q *Path, bs []b58Leaf) {
	for _, b := range bs {
		m := map[*Term]*Term{b.k: s.k, b.acc: b.lf.closed}
		q.st.fact(mkLeq(t0, substT(b.digit, m)))
		q.st.fact(mkLeq(substT(b.over, m), mkInt(255)))
	}
}
