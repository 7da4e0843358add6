// Models of library functions: what they return, as terms.
package main

import (
	"fmt"
	"go/types"
	"math/big"
	"math/bits"
	"os"
	"regexp/syntax"
	"strings"
)

// ---------- modelled interface implementations

var fakeTypes = map[string]*types.Named{}

func fakeType(name string) types.Type {
	t, ok := fakeTypes[name]
	if !ok {
		t = types.NewNamed(types.NewTypeName(0, nil, "model:"+name, nil), types.NewStruct(nil, nil), nil)
		fakeTypes[name] = t
	}
	return t
}

func fakeName(t types.Type) (string, bool) {
	n, ok := t.(*types.Named)
	if !ok || !strings.HasPrefix(n.Obj().Name(), "model:") {
		return "", false
	}
	return n.Obj().Name()[6:], true
}

func mkIface(name string, v *Term) *Term {
	return mkRaw(Term{op: OIface, sort: SVal, x: fakeType(name), args: []*Term{v}})
}

func sha256T(x *Term) *Term { return ufSeq("sha256", mkInt(32), x) }
func ripemdT(x *Term) *Term { return ufSeq("ripemd160", mkInt(20), x) }

func hexVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func hexOK(x *Term) *Term { return uf("hexok", SBool, x) }
func hexDec(x *Term) *Term {
	if f := ufRules["hexdec"]([]*Term{x}); f != nil {
		return f
	}
	return mkUfSeq("hexdec", mkDiv(seqLen(x), bigI(2)), x)
}

func init() {
	ufRules["seqless"] = func(a []*Term) *Term {
		if a[0] == a[1] {
			return tFalse
		}
		return nil
	}
	ufNorm["seqless"] = func(f *Facts, t *Term) *Term {
		if f.decide(mkEqT(t.args[0], t.args[1])) == 1 {
			return tFalse
		}
		return nil
	}
	ufRules["hexok"] = func(a []*Term) *Term {
		x := a[0]
		switch x.op {
		case OHex:
			return tTrue
		case OLit:
			if len(x.s)%2 != 0 {
				return tFalse
			}
			for i := 0; i < len(x.s); i++ {
				if hexVal(x.s[i]) < 0 {
					return tFalse
				}
			}
			return tTrue
		case OCat:
			all := true
			for _, p := range x.args {
				if uf("hexok", SBool, p) != tTrue {
					all = false
				}
			}
			if all {
				return tTrue
			}
		case OUf:
			if x.s == "tblseq" {
				t, f := true, true
				c := mapByID[x.args[0].s]
				for i := 1; i < len(c.args); i += 2 {
					h := hexOK(c.args[i])
					t = t && h == tTrue
					f = f && h == tFalse
				}
				if t {
					return tTrue
				}
				if f {
					return tFalse
				}
			}
		case OIte:
			return mkIte(x.args[0], hexOK(x.args[1]), hexOK(x.args[2]))
		case ORep:
			_, b := openBody(x.args[2], x.n)
			if hexOK(b) == tTrue {
				return tTrue
			}
		}
		return nil
	}
	ufRules["hexdec"] = func(a []*Term) *Term {
		x := a[0]
		switch x.op {
		case OHex:
			return x.args[0]
		case OLit:
			if hexOK(x) != tTrue {
				return nil
			}
			var b []byte
			for i := 0; i+1 < len(x.s); i += 2 {
				b = append(b, byte(hexVal(x.s[i])<<4|hexVal(x.s[i+1])))
			}
			return mkLit(string(b))
		case OCat:
			if hexOK(x) != tTrue {
				return nil
			}
			var ps []*Term
			for _, p := range x.args {
				ps = append(ps, hexDec(p))
			}
			return mkCat(ps...)
		case OIte:
			return mkIte(x.args[0], hexDec(x.args[1]), hexDec(x.args[2]))
		}
		return nil
	}
	ufFacts["hexok"] = func(c *Term, v bool) []*Term {
		if v {
			n := seqLen(c.args[0])
			return []*Term{mkIntEq(mulc(mkDiv(n, bigI(2)), bigI(2)), n), mkIntEq(mkMod(n, bigI(2)), t0)}
		}
		return nil
	}
	ufRules["b58dec"] = func(a []*Term) *Term {
		if a[0].op == OUf && a[0].s == "b58" {
			return a[0].args[0]
		}
		return nil
	}
	ufRules["cfbD"] = func(a []*Term) *Term {
		if x := a[2]; x.op == OUf && x.s == "cfbE" && x.args[0] == a[0] && x.args[1] == a[1] {
			return x.args[2]
		}
		return nil
	}
	ufRules["cfbE"] = func(a []*Term) *Term {
		if x := a[2]; x.op == OUf && x.s == "cfbD" && x.args[0] == a[0] && x.args[1] == a[1] {
			return x.args[2]
		}
		return nil
	}
	ufRules["b64ok"] = func(a []*Term) *Term {
		if x := a[1]; x.op == OUf && x.s == "b64" && x.args[0] == a[0] {
			return tTrue
		}
		if a[1] == tEmpty {
			return tTrue
		}
		return nil
	}
	ufRules["b64dec"] = func(a []*Term) *Term {
		if x := a[1]; x.op == OUf && x.s == "b64" && x.args[0] == a[0] {
			return x.args[1]
		}
		if a[1] == tEmpty {
			return tEmpty
		}
		return nil
	}
	ufRules["b64dec.len"] = func(a []*Term) *Term {
		if a[1] == tEmpty {
			return t0
		}
		return nil
	}
	ufRules["hexint"] = func(a []*Term) *Term {
		x := a[0]
		if x.op == OHex && x.args[0].op == OUnit {
			return x.args[0].args[0]
		}
		return nil
	}
}

func init() {
	m := models
	noop := func(c *cx) *Term { return mkTuple() }
	isErr := func(c *cx) *Term { return errTerm }
	m["errors.New"] = isErr
	m["fmt.Errorf"] = isErr
	for _, n := range []string{"log.Printf", "log.Println", "log.Print", "fmt.Println", "fmt.Printf"} {
		m[n] = noop
	}
	for _, n := range []string{"log.Panic", "log.Panicf", "log.Fatal", "log.Fatalf", "log.Panicln"} {
		m[n] = func(c *cx) *Term {
			c.e.violate(c.st, "panic", "the program is stopped")
			panic(pathEnd{})
		}
	}
	// ---- hex
	m["encoding/hex.EncodeToString"] = func(c *cx) *Term { return mkHex(c.bytes(0)) }
	m["encoding/hex.EncodedLen"] = func(c *cx) *Term { return mulc(c.args[0], bigI(2)) }
	m["encoding/hex.DecodeString"] = func(c *cx) *Term {
		s := c.st.norm(c.args[0])
		if c.fork(hexOK(s)) {
			return mkTuple(c.newBytes(hexDec(s)), tNil)
		}
		n := mkUfInt("hexpart.len", b0, maxLen, s)
		c.st.fact(mkLeq(n, mkDiv(seqLen(s), bigI(2))))
		return mkTuple(c.newBytes(mkUfSeq("hexpart", n, s)), c.fail())
	}
	// ---- hashes
	m["crypto/sha256.Sum256"] = func(c *cx) *Term { return sha256T(c.bytes(0)) }
	mkH := func(kind string) model {
		return func(c *cx) *Term {
			o := c.st.alloc(c.site, tEmpty)
			return mkIface("hash."+kind, mkPtr(o))
		}
	}
	m["golang.org/x/crypto/ripemd160.New"] = mkH("ripemd160")
	m["crypto/sha256.New"] = mkH("sha256")
	for kind, f := range map[string]func(*Term) *Term{"ripemd160": ripemdT, "sha256": sha256T} {
		f := f
		size := seqLen(f(tEmpty))
		dynModels["hash."+kind+".Write"] = func(c *cx) *Term {
			o := c.args[0].args[0]
			b := c.bytes(1)
			c.st.setContent(o, mkCat(c.st.content(o), b))
			return mkTuple(seqLen(b), tNil)
		}
		dynModels["hash."+kind+".Sum"] = func(c *cx) *Term {
			h := f(c.st.norm(c.st.content(c.args[0].args[0])))
			a := c.st.resolveIte(c.args[1])
			return c.newBytes(mkCat(c.st.seq(a), h))
		}
		dynModels["hash."+kind+".Reset"] = func(c *cx) *Term {
			c.st.setContent(c.args[0].args[0], tEmpty)
			return mkTuple()
		}
		dynModels["hash."+kind+".Size"] = func(c *cx) *Term { return size }
	}
	// ---- base58, base64
	b58 := func(x *Term) *Term { return mkUfSeq("b58", mkUfInt("b58.len", b0, maxLen, x), x) }
	m["github.com/bitcoinsv/bsvutil/base58.Encode"] = func(c *cx) *Term { return b58(c.bytes(0)) }
	m["github.com/bitcoinsv/bsvutil/base58.Decode"] = func(c *cx) *Term {
		s := c.st.norm(c.args[0])
		return c.newBytes(ufSeq("b58dec", mkUfInt("b58dec.len", b0, maxLen, s), s))
	}
	m["github.com/bitcoinsv/bsvutil/base58.CheckEncode"] = func(c *cx) *Term {
		x := mkCat(mkUnit(c.args[1]), c.bytes(0))
		return b58(mkCat(x, mkSub(sha256T(sha256T(x)), t0, mkInt(4))))
	}
	m["(*encoding/base64.Encoding).EncodeToString"] = func(c *cx) *Term {
		x := c.bytes(1)
		return mkUfSeq("b64", mulc(mkDiv(addc(seqLen(x), 2), bigI(3)), bigI(4)), c.args[0], x)
	}
	m["(*encoding/base64.Encoding).DecodeString"] = func(c *cx) *Term {
		s := c.st.norm(c.args[1])
		if c.fork(uf("b64ok", SBool, c.args[0], s)) {
			return mkTuple(c.newBytes(ufSeq("b64dec", ufInt("b64dec.len", b0, maxLen, c.args[0], s), c.args[0], s)), tNil)
		}
		return mkTuple(c.newBytes(ufSeq("b64part", mkUfInt("b64part.len", b0, maxLen, s), s)), c.fail())
	}
	// ---- randomness and ciphers
	readFull := func(c *cx, reader, buf *Term) *Term {
		b := c.st.resolveIte(buf)
		c.e.havocN++
		id := mkInt(int64(c.st.cnt["rand"]))
		if c.fork(mkUf("randok", SBool, reader, id)) {
			c.st.own()
			c.st.cnt["rand"]++
			x := mkUfSeq("rand", b.args[2], reader, id)
			if b.args[0] != tNil {
				c.e.writeRange(c.st, c.st.resolveIte(b.args[0]), b.args[1], add(b.args[1], b.args[2]), x)
			}
			return mkTuple(b.args[2], tNil)
		}
		n := mkUfInt("randn", b0, maxLen, reader, id)
		return mkTuple(n, c.fail())
	}
	m["io.ReadFull"] = func(c *cx) *Term { return readFull(c, c.args[0], c.args[1]) }
	m["crypto/rand.Read"] = func(c *cx) *Term {
		return readFull(c, mkUf("global:crypto/rand.Reader", SVal), c.args[0])
	}
	mkC := func(dir string) model {
		return func(c *cx) *Term {
			iv := c.bytes(1)
			c.e.oblige(c.st, mkIntEq(seqLen(iv), mkInt(16)), "cipher", "IV length equals the block size")
			o := c.st.alloc(c.site, mkRaw(Term{op: OStruct, sort: SVal, args: []*Term{c.args[0], iv, tFalse}}))
			return mkIface("cfb."+dir, mkPtr(o))
		}
	}
	m["crypto/cipher.NewCFBEncrypter"] = mkC("E")
	m["crypto/cipher.NewCFBDecrypter"] = mkC("D")
	for _, d := range []string{"E", "D"} {
		d := d
		dynModels["cfb."+d+".XORKeyStream"] = func(c *cx) *Term {
			o := c.args[0].args[0]
			s := c.st.content(o)
			if s.args[2] != tFalse {
				c.e.undecided("a key stream is used twice")
			}
			dst := c.st.resolveIte(c.args[1])
			src := c.bytes(2)
			n := seqLen(src)
			c.e.oblige(c.st, mkLeq(n, dst.args[2]), "cipher", "output is not smaller than input")
			out := ufSeq("cfb"+d, n, s.args[0], s.args[1], src)
			if dst.args[0] != tNil {
				c.e.writeRange(c.st, c.st.resolveIte(dst.args[0]), dst.args[1], add(dst.args[1], n), out)
			}
			c.st.setContent(o, mkRaw(Term{op: OStruct, sort: SVal, args: []*Term{s.args[0], s.args[1], tTrue}}))
			return mkTuple()
		}
	}
	dynModels["opaque.(crypto/cipher.Block).BlockSize"] = func(c *cx) *Term { return mkInt(16) }
	// ---- keys
	m["(*github.com/bitcoinsv/bsvd/bsvec.PrivateKey).PubKey"] = func(c *cx) *Term { return mkPtr(c.e.obj("any:pub", c.args[0])) }
	m["(*github.com/bitcoinsv/bsvd/bsvec.PublicKey).SerializeCompressed"] = func(c *cx) *Term {
		return c.newBytes(mkUfSeq("pubkey33", mkInt(33), c.args[0]))
	}
	m["(*github.com/bitcoinsv/bsvd/bsvec.PublicKey).SerializeUncompressed"] = func(c *cx) *Term {
		return c.newBytes(mkUfSeq("pubkey65", mkInt(65), c.args[0]))
	}
	m["(*github.com/bitcoinsv/bsvd/bsvec.PrivateKey).Sign"] = func(c *cx) *Term {
		h := c.bytes(1)
		if c.fork(mkUf("sigok", SBool, c.args[0], h)) {
			return mkTuple(mkPtr(c.e.obj("any:sig", c.args[0], h)), tNil)
		}
		return mkTuple(tNil, c.fail())
	}
	m["(*github.com/bitcoinsv/bsvd/bsvec.Signature).Serialize"] = func(c *cx) *Term {
		p := c.st.checkPtr(c.args[0], "signature")
		return c.newBytes(mkUfSeq("der", mkUfInt("derlen", bigI(8), bigI(72), p), p))
	}
	hd := func(ok, res string) model {
		return func(c *cx) *Term {
			var a []*Term
			for _, x := range c.args {
				if x.sort == SSeq || x.sort == SInt {
					x = c.st.norm(x)
				}
				a = append(a, x)
			}
			if a[0].sort == SVal {
				c.st.checkPtr(a[0], "key")
			}
			if c.fork(mkUf(ok, SBool, a...)) {
				return mkTuple(mkPtr(c.e.obj("any:"+res, a...)), tNil)
			}
			return mkTuple(tNil, c.fail())
		}
	}
	m["github.com/bitcoinsv/bsvutil/hdkeychain.NewKeyFromString"] = hd("hdok", "hdkey")
	m["(*github.com/bitcoinsv/bsvutil/hdkeychain.ExtendedKey).Child"] = hd("childok", "hdchild")
	m["(*github.com/bitcoinsv/bsvutil/hdkeychain.ExtendedKey).ECPubKey"] = hd("ecok", "hdpub")
	// ---- numbers as text
	m["strconv.ParseInt"] = func(c *cx) *Term {
		s := c.st.norm(c.args[0])
		if b, _ := c.args[1].constInt(); b != 16 {
			c.e.undecided("ParseInt in base other than 16")
		}
		n, ok := seqLen(s).constInt()
		if !ok || n > 7 {
			if nn := c.st.norm(seqLen(s)); true {
				n, ok = nn.constInt()
			}
		}
		if ok && n >= 1 && n <= 7 && (hexOK(s) == tTrue || c.st.f.decide(hexOK(s)) == 1 || c.st.f.decide(mkUf("allhex", SBool, s)) == 1) {
			return mkTuple(ufInt("hexint", b0, new(big.Int).Sub(pow2(uint(4*n)), b1), s), tNil)
		}
		if c.fork(mkUf("parseintok", SBool, s)) {
			return mkTuple(mkUfInt("hexint64", new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), b1), s), tNil)
		}
		return mkTuple(mkUfInt("hexintbad", new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), b1), s), c.fail())
	}
	m["strconv.ParseUint"] = func(c *cx) *Term {
		s := c.st.norm(c.args[0])
		base, _ := c.args[1].constInt()
		bits, ok := c.args[2].constInt()
		if base != 16 || !ok {
			c.e.undecided("ParseUint in base other than 16")
		}
		if bits == 0 {
			bits = 64
		}
		n, ok := c.st.norm(seqLen(s)).constInt()
		if ok && n >= 1 && int64(4*n) <= int64(bits) && (hexOK(s) == tTrue || c.st.f.decide(hexOK(s)) == 1 || c.st.f.decide(mkUf("allhex", SBool, s)) == 1) {
			return mkTuple(ufInt("hexint", b0, new(big.Int).Sub(pow2(uint(4*n)), b1), s), tNil)
		}
		top := new(big.Int).Sub(pow2(uint(bits)), b1)
		if c.fork(mkUf(fmt.Sprint("parseuintok:", bits), SBool, s)) {
			return mkTuple(mkUfInt("hexuint64", b0, top, s), tNil)
		}
		return mkTuple(mkUfInt("hexuintbad", b0, top, s), c.fail())
	}
	m["strconv.Itoa"] = func(c *cx) *Term { return mkUfSeq("fmt:d", mkUfInt("fmt:d.len", b1, bigI(20), c.args[0]), c.args[0]) }
	m["strconv.ParseFloat"] = func(c *cx) *Term {
		s := c.st.norm(c.args[0])
		if s.op == OUf && s.s == "bigstr" {
			return mkTuple(mkUf("big2float", SVal, s.args[0]), tNil)
		}
		if c.fork(mkUf("parsefloatok", SBool, s)) {
			return mkTuple(mkUf("parsefloat", SVal, s), tNil)
		}
		return mkTuple(mkFloat(0), c.fail())
	}
	m["math.Pow"] = func(c *cx) *Term { return mkUf("fpow", SVal, c.args[0], c.args[1]) }
	// ---- text
	m["fmt.Sprintf"] = func(c *cx) *Term { return c.sprintf() }
	m["fmt.Sprint"] = func(c *cx) *Term { return c.opaqueText("sprint", c.st.seq(c.args[0])) }
	m["strings.HasPrefix"] = func(c *cx) *Term {
		s, pre := c.st.norm(c.args[0]), c.st.norm(c.args[1])
		n := seqLen(pre)
		if !c.fork(mkLeq(n, seqLen(s))) {
			return tFalse
		}
		return mkEqT(c.st.sub(s, t0, n), pre)
	}
	m["strings.HasSuffix"] = func(c *cx) *Term {
		s, suf := c.st.norm(c.args[0]), c.st.norm(c.args[1])
		n := seqLen(suf)
		if !c.fork(mkLeq(n, seqLen(s))) {
			return tFalse
		}
		return mkEqT(c.st.sub(s, sub(seqLen(s), n), seqLen(s)), suf)
	}
	m["bytes.HasPrefix"] = func(c *cx) *Term {
		s, pre := c.bytes(0), c.bytes(1)
		n := seqLen(pre)
		if !c.fork(mkLeq(n, seqLen(s))) {
			return tFalse
		}
		return mkEqT(c.st.sub(s, t0, n), pre)
	}
	m["bytes.HasSuffix"] = func(c *cx) *Term {
		s, suf := c.bytes(0), c.bytes(1)
		n := seqLen(suf)
		if !c.fork(mkLeq(n, seqLen(s))) {
			return tFalse
		}
		return mkEqT(c.st.sub(s, sub(seqLen(s), n), seqLen(s)), suf)
	}
	m["bytes.Equal"] = func(c *cx) *Term { return mkEqT(c.bytes(0), c.bytes(1)) }
	m["bytes.Compare"] = func(c *cx) *Term {
		a, b := c.bytes(0), c.bytes(1)
		return seqCompare(a, b)
	}
	m["strings.Compare"] = func(c *cx) *Term {
		a, b := c.st.norm(c.args[0]), c.st.norm(c.args[1])
		return seqCompare(a, b)
	}
	m["bytes.IndexByte"] = func(c *cx) *Term {
		a, b := c.bytes(0), c.args[1]
		r := ufInt("indexbyte", bm1, maxLen, a, b)
		c.st.fact(mkLt(r, seqLen(a)))
		return r
	}
	m["strings.IndexByte"] = func(c *cx) *Term {
		a, b := c.st.norm(c.args[0]), c.args[1]
		r := ufInt("indexbyte", bm1, maxLen, a, b)
		c.st.fact(mkLt(r, seqLen(a)))
		return r
	}
	m["strings.TrimSpace"] = func(c *cx) *Term { return trimT(c.st.f, c.st.norm(c.args[0])) }
	m["strings.ToLower"] = func(c *cx) *Term { s := c.st.norm(c.args[0]); return mkUfSeq("tolower", seqLen(s), s) }
	m["strings.ToUpper"] = func(c *cx) *Term { s := c.st.norm(c.args[0]); return mkUfSeq("toupper", seqLen(s), s) }
	m["strings.Fields"] = func(c *cx) *Term {
		return c.st.newSlice(c.site, fieldsT(c.st.f, c.st.norm(c.args[0])), false)
	}
	m["strings.Split"] = func(c *cx) *Term {
		s, sep := c.st.norm(c.args[0]), c.st.norm(c.args[1])
		elemSpecs["split"] = elemSpec{sort: SSeq}
		return c.st.newSlice(c.site, mkUfSeq("split", mkUfInt("split.n", b1, maxLen, s, sep), s, sep), false)
	}
	m["strings.Repeat"] = func(c *cx) *Term {
		c.e.oblige(c.st, mkLeq(t0, c.args[1]), "panic", "repeat count is not negative")
		k := mkSym("z#", SInt, nil, nil, nil)
		return mkRep(k, t0, c.args[1], c.st.norm(c.args[0]))
	}
	m["bytes.Repeat"] = func(c *cx) *Term {
		c.e.oblige(c.st, mkLeq(t0, c.args[1]), "panic", "repeat count is not negative")
		k := mkSym("z#", SInt, nil, nil, nil)
		return c.newBytes(mkRep(k, t0, c.args[1], c.bytes(0)))
	}
	join := func(c *cx, unwrap func(*Term) *Term) *Term {
		l := c.st.norm(c.st.seq(c.args[0]))
		sep := c.st.norm(unwrap(c.args[1]))
		var out []*Term
		n, ok := seqLen(l).constInt()
		if !ok {
			n := seqLen(l)
			lo := t0
			var head *Term = tEmpty
			if sep != tEmpty {
				if !c.fork(mkLeq(t1, n)) {
					return tEmpty
				}
				lo = t1
				head = unwrap(c.st.elem(l, t0))
			}
			k := freshSym("j", SInt, b0, nil)
			g := c.st.clone()
			g.fact(mkLeq(lo, k))
			g.fact(mkLt(k, n))
			el := g.elem(l, k)
			if el.sort == SVal {
				el = g.seq(el)
			}
			return mkCat(head, mkRep(k, lo, n, mkCat(sep, el)))
		}
		for i := int64(0); i < n; i++ {
			if i > 0 {
				out = append(out, sep)
			}
			out = append(out, unwrap(c.st.elem(l, mkInt(i))))
		}
		return mkCat(out...)
	}
	m["strings.Join"] = func(c *cx) *Term { return join(c, func(x *Term) *Term { return x }) }
	m["bytes.Join"] = func(c *cx) *Term { return c.newBytes(join(c, func(x *Term) *Term { return c.st.seq(x) })) }
	// ---- growing buffers
	for _, t := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
		buf := func(c *cx) *Term { return c.st.checkPtr(c.args[0], "buffer").args[0] }
		upd := func(c *cx, x *Term) {
			p := c.st.checkPtr(c.args[0], "buffer")
			c.st.storeAt(p, mkCat(c.st.load(p), x))
		}
		_ = buf
		m[t+".Write"] = func(c *cx) *Term { b := c.bytes(1); upd(c, b); return mkTuple(seqLen(b), tNil) }
		m[t+".WriteString"] = func(c *cx) *Term { b := c.args[1]; upd(c, b); return mkTuple(seqLen(b), tNil) }
		m[t+".WriteByte"] = func(c *cx) *Term { upd(c, mkUnit(c.args[1])); return tNil }
		m[t+".String"] = func(c *cx) *Term { return c.st.load(c.args[0]) }
		m[t+".Len"] = func(c *cx) *Term { return seqLen(c.st.load(c.args[0])) }
		m[t+".Grow"] = noop
		m[t+".Reset"] = func(c *cx) *Term { c.st.storeAt(c.args[0], tEmpty); return mkTuple() }
		m[t+".Bytes"] = func(c *cx) *Term { return c.newBytes(c.st.load(c.args[0])) }
	}
	m["bytes.NewBuffer"] = func(c *cx) *Term { return mkPtr(c.st.alloc(c.site, c.bytes(0))) }
	// ---- regexp
	m["regexp.MustCompile"] = func(c *cx) *Term {
		if c.args[0].op != OLit {
			c.e.undecided("regular expression is not constant")
		}
		return mkPtr(c.e.obj("regexp", c.args[0]))
	}
	m["(*regexp.Regexp).FindStringSubmatch"] = func(c *cx) *Term { return c.submatch() }
	// ---- big integers: the object content is the integer itself
	bigNew := func(c *cx, v *Term) *Term { return mkPtr(c.st.alloc(c.site, v)) }
	get := func(c *cx, i int) *Term { return c.st.norm(c.st.load(c.args[i])) }
	set := func(c *cx, v *Term) *Term { c.st.storeAt(c.args[0], v); return c.args[0] }
	B := "(*math/big.Int)."
	m["math/big.NewInt"] = func(c *cx) *Term { return bigNew(c, c.args[0]) }
	m[B+"SetInt64"] = func(c *cx) *Term { return set(c, c.args[1]) }
	m[B+"SetUint64"] = func(c *cx) *Term { return set(c, c.args[1]) }
	m[B+"Set"] = func(c *cx) *Term { return set(c, get(c, 1)) }
	m[B+"Add"] = func(c *cx) *Term { return set(c, add(get(c, 1), get(c, 2))) }
	m[B+"Sub"] = func(c *cx) *Term { return set(c, sub(get(c, 1), get(c, 2))) }
	m[B+"Mul"] = func(c *cx) *Term { return set(c, mkMul(get(c, 1), get(c, 2))) }
	m[B+"Neg"] = func(c *cx) *Term { return set(c, neg(get(c, 1))) }
	m[B+"Lsh"] = func(c *cx) *Term { return set(c, mkMul(get(c, 1), mkPow2(c.st.norm(c.args[2])))) }
	m[B+"Exp"] = func(c *cx) *Term {
		base, ok := get(c, 1).constInt()
		if !ok || base < 2 || base&(base-1) != 0 || c.args[3] != tNil {
			c.e.undecided("Exp of something other than a power of two")
		}
		n := c.st.norm(get(c, 2))
		if c.fork(mkLeq(n, t0)) {
			return set(c, t1)
		}
		return set(c, mkPow2(mulc(n, bigI(int64(bits.TrailingZeros64(uint64(base)))))))
	}
	m[B+"Rsh"] = func(c *cx) *Term { return set(c, mkShr(get(c, 1), c.st.norm(c.args[2]))) }
	m[B+"Abs"] = func(c *cx) *Term {
		v := get(c, 1)
		if c.fork(mkLeq(t0, v)) {
			return set(c, v)
		}
		return set(c, neg(v))
	}
	m[B+"Sign"] = func(c *cx) *Term {
		v := get(c, 0)
		return mkIte(mkEq0(v), t0, mkIte(mkLt(v, t0), mkInt(-1), t1))
	}
	m[B+"Cmp"] = func(c *cx) *Term {
		v := sub(get(c, 0), get(c, 1))
		return mkIte(mkEq0(v), t0, mkIte(mkLt(v, t0), mkInt(-1), t1))
	}
	m[B+"Int64"] = func(c *cx) *Term { return c.st.wrap(get(c, 0), types.Typ[types.Int64]) }
	m[B+"Uint64"] = func(c *cx) *Term { return c.st.wrap(get(c, 0), types.Typ[types.Uint64]) }
	m[B+"BitLen"] = func(c *cx) *Term { return bitLen(get(c, 0)) }
	m[B+"String"] = func(c *cx) *Term { v := get(c, 0); return mkUfSeq("bigstr", mkUfInt("bigstr.len", b1, maxLen, v), v) }
	m[B+"Bytes"] = func(c *cx) *Term {
		v := get(c, 0)
		return c.newBytes(bigBytes(v))
	}
	m[B+"SetBytes"] = func(c *cx) *Term { return set(c, ufInt("frombe", b0, nil, c.bytes(1))) }
	m[B+"FillBytes"] = func(c *cx) *Term {
		v := get(c, 0)
		v = absForm(v)
		b := c.st.resolveIte(c.args[1])
		n := bigLen(v)
		c.e.oblige(c.st, mkLeq(n, b.args[2]), "panic", "the integer fits the buffer")
		k := mkSym("z#", SInt, nil, nil, nil)
		pad := mkRep(k, t0, sub(b.args[2], n), mkUnit(t0))
		c.e.writeRange(c.st, c.st.resolveIte(b.args[0]), b.args[1], add(b.args[1], b.args[2]), mkCat(pad, bigBytes(v)))
		return b
	}
	m["math/big.NewFloat"] = func(c *cx) *Term { return mkPtr(c.st.alloc(c.site, c.args[0])) }
	m["(*math/big.Float).SetInt"] = func(c *cx) *Term { return set(c, mkUf("big2float", SVal, get(c, 1))) }
	m["(*math/big.Float).Float64"] = func(c *cx) *Term { return mkTuple(c.st.load(c.args[0]), mkUf("accuracy", SVal)) }
}

func (c *cx) opaqueText(tag string, args ...*Term) *Term {
	return mkUfSeq(tag, mkUfInt(tag+".len", b0, maxLen, args...), args...)
}

// sprintf with a constant format.
func (c *cx) sprintf() *Term {
	f := c.args[0]
	if f.op != OLit {
		return c.opaqueText("sprintf", f, c.st.norm(c.st.seq(c.args[1])))
	}
	var as []*Term
	l := c.st.seq(c.args[1])
	n, ok := seqLen(l).constInt()
	if !ok {
		c.e.undecided("variadic format arguments")
	}
	for i := int64(0); i < n; i++ {
		as = append(as, c.st.resolveIte(c.st.elem(l, mkInt(i))))
	}
	var out []*Term
	s := f.s
	ai := 0
	for i := 0; i < len(s); {
		j := strings.IndexByte(s[i:], '%')
		if j < 0 {
			out = append(out, mkLit(s[i:]))
			break
		}
		if j > 0 {
			out = append(out, mkLit(s[i:i+j]))
		}
		k := i + j + 1
		for k < len(s) && strings.IndexByte("+-# 0123456789.", s[k]) >= 0 {
			k++
		}
		if k >= len(s) {
			break
		}
		verb := s[i+j+1 : k+1]
		i = k + 1
		if s[k] == '%' {
			out = append(out, mkLit("%"))
			continue
		}
		if ai >= len(as) {
			out = append(out, mkLit("%!"+verb+"(MISSING)"))
			continue
		}
		out = append(out, c.fmtArg(verb, as[ai]))
		ai++
	}
	return mkCat(out...)
}

func (c *cx) fmtArg(verb string, a *Term) *Term {
	if a.op != OIface {
		return c.opaqueText("fmt:"+verb, a)
	}
	v := a.args[0]
	ty := a.x.(types.Type)
	hasM := false
	if ms := types.NewMethodSet(ty); ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil {
		hasM = true
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0 && !hasM:
			switch verb {
			case "s", "v":
				return v
			case "x":
				return mkHex(c.st.norm(v))
			}
		case u.Info()&types.IsInteger != 0:
			v = c.st.norm(v)
			small := c.st.f.prove(mkAnd(mkLeq(t0, v), mkLeq(v, mkInt(255))))
			if small && (verb == ".2x" || verb == "02x") {
				return mkHex(mkUnit(v))
			}
			if k, ok := v.constInt(); ok && (verb == "d" || verb == "v") {
				return mkLit(itoa(int(k)))
			}
			return c.opaqueText("fmt:"+verb, v)
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte && !hasM {
			switch verb {
			case "x":
				return mkHex(c.st.norm(c.st.seq(v)))
			case "s":
				return c.st.seq(v)
			}
			return c.opaqueText("fmt:"+verb, c.st.norm(c.st.seq(v)))
		}
	case *types.Array:
		if verb == "x" && v.sort == SSeq {
			return mkHex(c.st.norm(v))
		}
	case *types.Pointer:
		// formatted through the pointed-to value
		return c.opaqueText("fmt:"+verb, v)
	}
	return c.opaqueText("fmt:"+verb, v)
}

// ---------- white space

func isSpace(b byte) bool { return b == ' ' || b >= 9 && b <= 13 }

// noSpace: every byte of the text is provably not white space, and it is not empty.
func noSpace(f *Facts, t *Term) (ok, nonEmpty bool) {
	switch t.op {
	case OLit:
		for i := 0; i < len(t.s); i++ {
			if isSpace(t.s[i]) || t.s[i] >= 0x80 {
				return false, true
			}
		}
		return true, len(t.s) > 0
	case OHex:
		n := seqLen(t.args[0])
		return true, f.lt(t0, n) || f.proveCases(mkLt(t0, n), 4)
	case OCat:
		ok, ne := true, false
		for _, p := range t.args {
			o, n := noSpace(f, p)
			ok = ok && o
			ne = ne || n
		}
		return ok, ne
	case OIte:
		ok, ne := true, true
		for i, c := range []*Term{t.args[0], mkNot(t.args[0])} {
			g := f.clone()
			if !g.assume(g.norm(c)) || g.bad {
				continue
			}
			o, n := noSpace(g, t.args[1+i])
			ok = ok && o
			ne = ne && n
		}
		return ok, ne
	case OUf:
		if t.s == "tblseq" {
			c := mapByID[t.args[0].s]
			for i := 1; i < len(c.args); i += 2 {
				if o, n := noSpace(f, c.args[i]); c.args[i].op != OLit || !o || !n {
					return false, false
				}
			}
			return true, true
		}
		if strings.HasPrefix(t.s, "word:") {
			return true, true
		}
	}
	return false, false
}

func trimT(f *Facts, t *Term) *Term {
	if t.op == OLit {
		return mkLit(strings.TrimSpace(t.s))
	}
	if t == tEmpty {
		return t
	}
	ps := append([]*Term{}, seqParts(t)...)
	left, right := false, false
	for len(ps) > 0 && !left {
		if ps[0].op == OLit {
			if s := strings.TrimLeft(ps[0].s, " \t\n\v\f\r"); s == "" {
				ps = ps[1:]
				continue
			} else {
				ps[0] = mkLit(s)
			}
		}
		ok, ne := noSpace(f, ps[0])
		left = ok && ne
		break
	}
	for len(ps) > 0 && !right {
		n := len(ps) - 1
		if ps[n].op == OLit {
			if s := strings.TrimRight(ps[n].s, " \t\n\v\f\r"); s == "" {
				ps = ps[:n]
				continue
			} else {
				ps[n] = mkLit(s)
			}
		}
		ok, ne := noSpace(f, ps[n])
		right = ok && ne
		break
	}
	if len(ps) == 0 {
		return tEmpty
	}
	if left && right {
		return mkCat(ps...)
	}
	return mkUfSeq("trim", mkUfInt("trim.len", b0, maxLen, t), t)
}

// separated: the word of a repeated text, if blanks keep its repetitions
// apart, and whether a blank comes before the first and after the last.
func separated(g *Facts, b, k, lo, hi *Term) (w *Term, before, after bool) {
	bp := seqParts(b)
	if len(bp) < 2 {
		return nil, false, false
	}
	if bp[0].op == OLit && isSpace(bp[0].s[0]) {
		return b, true, false
	}
	// blank: does the part hold a blank for all but the excepted k?
	blank := func(p, except *Term) (ok, always bool) {
		if p.op == OLit {
			return strings.TrimSpace(p.s) == "", true
		}
		if p.op != OIte {
			return false, false
		}
		c, x, y := p.args[0], p.args[1], p.args[2]
		if x == tEmpty {
			c, x, y = mkNot(c), y, x
		}
		if y != tEmpty || x.op != OLit || strings.TrimSpace(x.s) != "" {
			return false, false
		}
		h := g.clone()
		if !h.assume(h.norm(mkNot(c))) || h.bad {
			return true, true
		}
		return h.prove(mkEqT(k, except)), false
	}
	if ok, always := blank(bp[0], lo); ok {
		return mkCat(bp[1:]...), always, false
	}
	if ok, always := blank(bp[len(bp)-1], sub(hi, t1)); ok {
		return mkCat(bp[:len(bp)-1]...), false, always
	}
	return nil, false, false
}

func fieldsT(f *Facts, t *Term) *Term {
	elemSpecs["fields"] = elemSpec{sort: SSeq}
	if t.op == OUf && t.s == "trim" {
		return fieldsT(f, t.args[0])
	}
	if t == tEmpty {
		return tEmpty
	}
	// words separated by single blanks
	var out []*Term
	var cur []*Term
	flush := func() bool {
		if len(cur) == 0 {
			return true
		}
		w := mkCat(cur...)
		cur = nil
		if w == tEmpty {
			return true
		}
		ok, ne := noSpace(f, w)
		if !ok || !ne {
			return false
		}
		out = append(out, mkUnit(w))
		return true
	}
	good := true
	ps := seqParts(t)
	for i, p := range ps {
		switch p.op {
		case OLit:
			s := p.s
			for good && s != "" {
				j := strings.IndexFunc(s, func(r rune) bool { return r < 128 && isSpace(byte(r)) })
				if j < 0 {
					cur = append(cur, mkLit(s))
					break
				}
				if j > 0 {
					cur = append(cur, mkLit(s[:j]))
				}
				good = flush()
				s = s[j+1:]
			}
		case ORep:
			// body = blank ++ word, and what follows starts with a blank
			k, b := openBody(p.args[2], p.n)
			g := f.clone()
			g.assume(mkLeq(p.args[0], k))
			g.assume(mkLt(k, p.args[1]))
			w, before, after := separated(g, b, k, p.args[0], p.args[1])
			next := i+1 == len(ps)
			if !next {
				q := ps[i+1]
				next = q.op == OLit && isSpace(q.s[0]) || q.op == ORep
			}
			if w == nil || !before && len(cur) > 0 || !after && !next {
				return mkUfSeq("fields", mkUfInt("fields.n", b0, maxLen, t), t)
			}
			good = good && flush()
			inner := fieldsT(g, w)
			if inner.op == OUf {
				good = false
				break
			}
			out = append(out, mkRep(k, p.args[0], p.args[1], inner))
		default:
			cur = append(cur, p)
		}
	}
	if good && flush() {
		return mkCat(out...)
	}
	if os.Getenv("AFIELDS") != "" {
		fmt.Println("FIELDS", good, mkCat(cur...))
		for _, c := range f.le {
			fmt.Println("  le", c)
		}
		for _, c := range f.eq {
			fmt.Println("  eq", c)
		}
	}
	return mkUfSeq("fields", mkUfInt("fields.n", b0, maxLen, t), t)
}

// ---------- the shape of regular expressions used for prefixed hexadecimal text

type rePart struct {
	group    bool
	lit      string
	hex      bool
	any      bool // .+? or .*?
	min, max int
}

func parseRe(s string) (ps []rePart, ok bool) {
	re, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return nil, false
	}
	if re.Op != syntax.OpConcat || len(re.Sub) < 3 || re.Sub[0].Op != syntax.OpBeginText || re.Sub[len(re.Sub)-1].Op != syntax.OpEndText {
		return nil, false
	}
	for _, x := range re.Sub[1 : len(re.Sub)-1] {
		p := rePart{min: 1, max: 1}
		if x.Op == syntax.OpCapture {
			p.group = true
			x = x.Sub[0]
		}
		switch x.Op {
		case syntax.OpLiteral:
			p.lit = string(x.Rune)
			if x.Flags&syntax.FoldCase != 0 {
				return nil, false
			}
			ps = append(ps, p)
			continue
		case syntax.OpPlus:
			p.min, p.max = 1, -1
			x = x.Sub[0]
		case syntax.OpStar:
			p.min, p.max = 0, -1
			x = x.Sub[0]
		case syntax.OpQuest:
			p.min, p.max = 0, 1
			x = x.Sub[0]
		case syntax.OpRepeat:
			p.min, p.max = x.Min, x.Max
			x = x.Sub[0]
		}
		switch x.Op {
		case syntax.OpAnyCharNotNL, syntax.OpAnyChar:
			p.any = true
		case syntax.OpCharClass:
			if x.String() != "[0-9A-Fa-f]" && x.String() != "[0-9a-f]" {
				return nil, false
			}
			p.hex = true
			if x.String() == "[0-9a-f]" {
				p.lit = "lower"
			}
		default:
			return nil, false
		}
		ps = append(ps, p)
	}
	return ps, true
}

// submatch: prefix any, literal separator, then hexadecimal fields of which at
// most one has no fixed width.
func (c *cx) submatch() *Term {
	o := c.st.checkPtr(c.args[0], "regexp").args[0]
	if o.s != "regexp" {
		c.e.undecided("unknown regular expression")
	}
	pat := o.args[0].s
	ps, ok := parseRe(pat)
	if !ok || len(ps) < 3 || !ps[0].any || ps[0].max != -1 || ps[1].lit == "" || ps[1].hex || len(ps[1].lit) != 1 || hexVal(ps[1].lit[0]) >= 0 {
		c.e.undecided("regular expression %q is not of a modelled shape", pat)
	}
	free := -1
	fixed := 0
	minTail := 0
	for i, p := range ps[2:] {
		if !p.hex {
			c.e.undecided("regular expression %q is not of a modelled shape", pat)
		}
		minTail += p.min
		if p.min == p.max {
			fixed += p.min
			continue
		}
		if free >= 0 || p.max != -1 {
			c.e.undecided("regular expression %q is not of a modelled shape", pat)
		}
		free = i + 2
	}
	text := c.st.norm(c.args[1])
	L := seqLen(text)
	var colon *Term
	// text built as prefix, separator, hexadecimal parts
	parts := seqParts(text)
	var flat []*Term
	for _, p := range parts {
		if p.op == OLit {
			for i := 0; i < len(p.s); i++ {
				flat = append(flat, mkLit(p.s[i:i+1]))
			}
		} else {
			flat = append(flat, p)
		}
	}
	at := -1
	for i := len(flat) - 1; i >= 0; i-- {
		p := flat[i]
		if p.op == OHex || p.op == OLit && hexVal(p.s[0]) >= 0 {
			continue
		}
		if p.op == OLit && p.s == ps[1].lit {
			at = i
		}
		break
	}
	matched := false
	if at >= 0 {
		colon = seqLen(mkCat(flat[:at]...))
		tail := sub(sub(L, colon), t1)
		okC := mkAnd(mkLeq(mkInt(int64(ps[0].min)), colon), mkLeq(mkInt(int64(minTail)), tail), uf("oneline", SBool, mkCat(flat[:at]...)))
		if free < 0 {
			okC = mkAnd(okC, mkIntEq(tail, mkInt(int64(fixed))))
		}
		if !c.fork(okC) {
			return nilSlice
		}
		matched = true
	} else {
		if !c.fork(mkUf("rematch", SBool, mkLit(pat), text)) {
			return nilSlice
		}
		colon = mkUfInt("recolon", b0, maxLen, mkLit(pat), text)
		c.st.fact(mkLeq(mkInt(int64(ps[0].min)), colon))
		c.st.fact(mkLeq(addc(colon, int64(1+minTail)), L))
		if free < 0 {
			c.st.fact(mkIntEq(addc(colon, int64(1+fixed)), L))
		}
	}
	pos := addc(colon, 1)
	elemSpecs["res"] = elemSpec{sort: SSeq}
	out := []*Term{mkUnit(text)}
	if ps[0].group {
		out = append(out, mkUnit(c.st.sub(text, t0, colon)))
	}
	if ps[1].group {
		out = append(out, mkUnit(mkLit(ps[1].lit)))
	}
	for i := 2; i < len(ps); i++ {
		p := ps[i]
		var end *Term
		if i == free {
			rest := 0
			for _, q := range ps[i+1:] {
				rest += q.min
			}
			end = addc(L, -int64(rest))
		} else {
			end = addc(pos, int64(p.min))
		}
		g := c.st.sub(text, pos, end)
		if !matched {
			c.st.fact(mkUf("allhex", SBool, g))
			if p.min == p.max && p.min%2 == 0 {
				c.st.fact(hexOK(g))
			}
		}
		if p.group {
			out = append(out, mkUnit(g))
		}
		pos = end
	}
	return c.st.newSlice(c.site, mkCat(out...), false)
}

// the magnitude of v in bytes
func absForm(v *Term) *Term {
	if l := linOf(v); !v.isConst() && len(l.m) > 0 && l.m[0].c.Sign() < 0 {
		return neg(v)
	}
	return v
}

func bigLen(v *Term) *Term { return lenOf("biglen", 8, v) }
func bitLen(v *Term) *Term { return lenOf("bitlen", 1, v) }

func lenOf(name string, unit int, v *Term) *Term {
	v = absForm(v)
	if v.isConst() {
		return mkInt(int64((v.k.BitLen() + unit - 1) / unit))
	}
	hi := maxLen
	if l, h := rangeOf(v); l != nil && h != nil {
		n := l.BitLen()
		if h.BitLen() > n {
			n = h.BitLen()
		}
		hi = bigI(int64((n + unit - 1) / unit))
	}
	return mkUfInt(name, b0, hi, v)
}

func bigBytes(v *Term) *Term {
	if v.isConst() {
		return mkLit(string(v.k.Bytes()))
	}
	return mkUfSeq("bigbytes", bigLen(v), absForm(v))
}

func init() {
	ufNorm["biglen"] = func(f *Facts, t *Term) *Term { return bigLen(t.args[0]) }
	ufNorm["bitlen"] = func(f *Facts, t *Term) *Term { return bitLen(t.args[0]) }
	ufNorm["bigbytes"] = func(f *Facts, t *Term) *Term { return bigBytes(t.args[0]) }
}
