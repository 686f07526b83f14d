// Command rns performs the calls enumerated by spec/RNSGen.tla on the real code and
// records operands, results and certificates for spec/RNS.tla.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sync"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"
	"verifharness/racelog"
)

type cfg struct {
	Name string   `json:"name"`
	LogN int      `json:"logn"`
	Q    []uint64 `json:"q"`
	Qb   []int    `json:"qb"`
	QM   []uint64 `json:"qm"`
	QMb  []int    `json:"qmb"`
	P    []uint64 `json:"p"`
	Pb   []int    `json:"pb"`
	T    uint64   `json:"t"`
}

type call struct {
	Cfg   string `json:"cfg"`
	Op    string `json:"op"`
	Lq    int    `json:"lq"`
	Lp    int    `json:"lp"`
	Alpha int    `json:"alpha"`
	Blk   int    `json:"blk"`
	Style string `json:"style"`
	How   string `json:"how"`
	Num   int    `json:"num"`
	Seed  int64  `json:"seed"`
}

type nat []int

type cert struct {
	S int `json:"s"`
	K nat `json:"k"`
}

type coef struct {
	X   nat    `json:"X"`
	C   nat    `json:"C"`
	E   nat    `json:"E"`
	U   int    `json:"u"`
	V   int    `json:"v"`
	In  []nat  `json:"in"`
	Out []nat  `json:"out"`
	Ink []nat  `json:"ink"`
	Ind []nat  `json:"ind"`
	Ci  []cert `json:"ci"`
	Co  []cert `json:"co"`
	Cd  []cert `json:"cd"`
	Ck  []cert `json:"ck"`
}

type digit struct {
	X  nat    `json:"X"`
	Ci []cert `json:"ci"`
}

type record struct {
	call
	N     int       `json:"n"`
	Nq    int       `json:"nq"`
	Np    int       `json:"np"`
	Nm    int       `json:"nm"`
	T     nat       `json:"t"`
	Pr    []nat     `json:"pr"`
	Res   string    `json:"res"`
	Msg   string    `json:"msg"`
	Frame []string  `json:"frame"`
	Cos   []coef    `json:"co"`
	A     [][]nat   `json:"a"`
	Dig   [][]digit `json:"dig"`
	Bg    [][][]nat `json:"bg"`
	Neg   [][][]nat `json:"neg"`
	Nk    [][][]nat `json:"nk"`
}

var base = big.NewInt(4096)

func limbs(x *big.Int) nat {
	out := nat{}
	y := new(big.Int).Set(x)
	r := new(big.Int)
	for y.Sign() > 0 {
		y.DivMod(y, base, r)
		out = append(out, int(r.Int64()))
	}
	return out
}
func u(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
func lu(x uint64) nat     { return limbs(u(x)) }

func cong(a, b, p *big.Int) cert {
	d := new(big.Int).Sub(a, b)
	s := 0
	if d.Sign() < 0 {
		s = 1
		d.Neg(d)
	}
	return cert{s, limbs(d.Div(d, p))}
}
func isCong(a, b, p *big.Int) bool {
	d := new(big.Int).Sub(a, b)
	return d.Mod(d, p).Sign() == 0
}
func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func prod(l []uint64) *big.Int {
	m := big.NewInt(1)
	for _, x := range l {
		m.Mul(m, u(x))
	}
	return m
}

// crt returns the integer in 0..prod-1 with the given residues.
func crt(res []*big.Int, pr []uint64) *big.Int {
	m := prod(pr)
	x := new(big.Int)
	for i, p := range pr {
		mi := new(big.Int).Div(m, u(p))
		inv := new(big.Int).ModInverse(new(big.Int).Mod(mi, u(p)), u(p))
		t := new(big.Int).Mod(mul(res[i], inv), u(p))
		x.Add(x, mul(t, mi))
	}
	return x.Mod(x, m)
}

// setting is everything made from one set of primes; it is used for all its calls, in turn.
type setting struct {
	c        *cfg
	n        int
	q, p, qm []uint64
	ringQ    *ring.Ring
	ringP    *ring.Ring
	conv     *mkrlwe.FastBasisExtender
	dec      *mkrlwe.Decomposer
	ks       *mkrlwe.KeySwitcher
	rp       mkrlwe.Parameters
	bp       mkbfv.Parameters
	bks      *mkbfv.KeySwitcher
	bcv      *mkbfv.FastBasisExtender
	hasKs    bool
}

// fork returns a setting for another thread: what is meant to be shared is, the basis extender is a
// shallow copy, and everything else is its own.
func (s *setting) fork() *setting {
	v := *s
	v.conv = s.conv.ShallowCopy()
	if s.dec != nil {
		v.dec = mkrlwe.NewDecomposer(s.ringQ, s.ringP, 2)
	}
	if s.hasKs {
		if len(s.qm) > 0 {
			v.bks = mkbfv.NewKeySwitcher(s.bp)
			v.ks = v.bks.KeySwitcher
			v.bcv = mkbfv.NewFastBasisExtender(s.bp.RingP(), s.bp.RingQ(), s.bp.RingQMul(), s.bp.RingR())
		} else {
			v.ks = mkrlwe.NewKeySwitcher(s.rp)
		}
	}
	return &v
}

func genPrimes(logN int, groups ...[]int) [][]uint64 {
	cnt := map[int]int{}
	for _, g := range groups {
		for _, b := range g {
			cnt[b]++
		}
	}
	pool := map[int][]uint64{}
	for b, n := range cnt {
		pool[b] = ring.GenerateNTTPrimes(b, 2<<logN, n)
	}
	var out [][]uint64
	for _, g := range groups {
		var l []uint64
		for _, b := range g {
			l = append(l, pool[b][0])
			pool[b] = pool[b][1:]
		}
		out = append(out, l)
	}
	return out
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func newSetting(c *cfg) *setting {
	s := &setting{c: c, n: 1 << c.LogN, q: c.Q, p: c.P, qm: c.QM}
	if len(c.Qb) > 0 {
		g := genPrimes(c.LogN, c.Qb, c.Pb, c.QMb)
		s.q, s.p, s.qm = g[0], g[1], g[2]
	}
	var err error
	s.ringQ, err = ring.NewRing(s.n, s.q)
	must(err)
	s.ringP, err = ring.NewRing(s.n, s.p)
	must(err)
	s.conv = mkrlwe.NewFastBasisExtender(s.ringQ, s.ringP)
	if len(s.p) >= 2 {
		s.dec = mkrlwe.NewDecomposer(s.ringQ, s.ringP, 2)
	}
	if len(s.p) >= 2 {
		s.hasKs = true
		if len(s.qm) > 0 {
			s.bp = mkbfv.NewParametersFromLiteral(mkbfv.ParametersLiteral{LogN: c.LogN, Q: s.q, QMul: s.qm, P: s.p, T: c.T, Sigma: 3.2})
			s.bks = mkbfv.NewKeySwitcher(s.bp)
			s.ks = s.bks.KeySwitcher
			s.rp = s.bp.Parameters
			s.bcv = mkbfv.NewFastBasisExtender(s.bp.RingP(), s.bp.RingQ(), s.bp.RingQMul(), s.bp.RingR())
		} else {
			rp, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: c.LogN, Q: s.q, P: s.p, Sigma: 3.2})
			must(err)
			s.rp = mkrlwe.NewParameters(rp, 2)
			s.ks = mkrlwe.NewKeySwitcher(s.rp)
		}
	}
	return s
}

// draw chooses the integer of one coefficient in 0..m-1; subs are moduli whose multiples are interesting.
func draw(rnd *rand.Rand, m *big.Int, subs []*big.Int, style string, k int) *big.Int {
	rd := func() *big.Int { return new(big.Int).Rand(rnd, m) }
	one := big.NewInt(1)
	switch style {
	case "zero":
		return new(big.Int)
	case "one":
		return new(big.Int).Mod(one, m)
	case "max":
		return new(big.Int).Sub(m, one)
	case "rand", "dense":
		return rd()
	}
	x := new(big.Int)
	switch z := rnd.Intn(12); z {
	case 0:
	case 1:
		x.SetInt64(int64(rnd.Intn(4)))
	case 2:
		x.Sub(m, big.NewInt(1+int64(rnd.Intn(4))))
	case 3:
		x.Rsh(m, 1)
		x.Add(x, big.NewInt(int64(rnd.Intn(5)-2)))
	case 4: // near the top, by a fraction
		x.Sub(m, new(big.Int).Rsh(m, uint(rnd.Intn(50)+1)))
		x.Sub(x, one)
	case 5: // near zero, by a fraction
		x.Rsh(m, uint(rnd.Intn(50)+1))
	case 6, 7, 8: // around multiples
		s := subs[rnd.Intn(len(subs))]
		x.Div(rd(), s)
		x.Mul(x, s)
		x.Add(x, big.NewInt(int64(rnd.Intn(5)-2)))
	case 9:
		x.Set(u(uint64(rnd.Int63())))
	default:
		x = rd()
	}
	return x.Mod(x, m)
}

func fill(p *ring.Poly, k int, x *big.Int, mods []uint64) {
	for j, q := range mods {
		p.Coeffs[j][k] = new(big.Int).Mod(x, u(q)).Uint64()
	}
}

func fp(p *ring.Poly) string { return fmt.Sprint(p.Coeffs) }

func junk(p *ring.Poly, rnd *rand.Rand) {
	for i := range p.Coeffs {
		for j := range p.Coeffs[i] {
			p.Coeffs[i][j] = uint64(rnd.Int63()) >> 8
		}
	}
}

func bigs(l []uint64) []*big.Int {
	var out []*big.Int
	for _, x := range l {
		out = append(out, u(x))
	}
	return out
}

// up fills the record of an extension from src to dst; in[j][k], out[j][k] are residues.
func up(r *record, n int, in, out [][]uint64, src, dst []uint64) {
	m := prod(src)
	for k := 0; k < n; k++ {
		c := coef{}
		var res []*big.Int
		for j := range src {
			res = append(res, u(in[j][k]))
			c.In = append(c.In, lu(in[j][k]))
		}
		x := crt(res, src)
		c.X = limbs(x)
		for j := range src {
			c.Ci = append(c.Ci, cong(x, res[j], u(src[j])))
		}
		c.V = 1
		for _, v := range []int{1, 2, 0} {
			ok := true
			for j := range dst {
				ok = ok && isCong(add(x, mul(big.NewInt(int64(v)), m)), add(u(out[j][k]), m), u(dst[j]))
			}
			if ok {
				c.V = v
				break
			}
		}
		y := add(x, mul(big.NewInt(int64(c.V)), m))
		for j := range dst {
			c.Out = append(c.Out, lu(out[j][k]))
			c.Co = append(c.Co, cong(y, add(u(out[j][k]), m), u(dst[j])))
		}
		r.Cos = append(r.Cos, c)
	}
}

func down(r *record, n int, ink, ind, out [][]uint64, keep, drop []uint64, t *big.Int) {
	m := prod(drop)
	for k := 0; k < n; k++ {
		c := coef{}
		var res []*big.Int
		for j := range drop {
			res = append(res, mul(t, u(ind[j][k])))
			c.Ind = append(c.Ind, lu(ind[j][k]))
		}
		e := crt(res, drop)
		c.E = limbs(e)
		for j := range drop {
			c.Cd = append(c.Cd, cong(e, res[j], u(drop[j])))
		}
		side := func(uu, j int) (*big.Int, *big.Int) {
			return add(mul(m, u(out[j][k])), add(e, mul(big.NewInt(int64(uu)), m))), add(mul(t, u(ink[j][k])), m)
		}
		c.U = 1
		for _, uu := range []int{1, 2, 0} {
			ok := true
			for j := range keep {
				a, b := side(uu, j)
				ok = ok && isCong(a, b, u(keep[j]))
			}
			if ok {
				c.U = uu
				break
			}
		}
		for j := range keep {
			a, b := side(c.U, j)
			c.Ink = append(c.Ink, lu(ink[j][k]))
			c.Out = append(c.Out, lu(out[j][k]))
			c.Ck = append(c.Ck, cong(a, b, u(keep[j])))
		}
		r.Cos = append(r.Cos, c)
	}
}

func clone(p *ring.Poly) *ring.Poly {
	q := p.CopyNew()
	q.IsNTT = p.IsNTT
	return q
}

func (s *setting) do(o *call) (r *record) {
	r = &record{call: *o, N: s.n, Nq: len(s.q), Np: len(s.p), Nm: len(s.qm), T: nat{1}, Res: "ok", Frame: []string{}, Cos: []coef{}}
	for _, l := range [][]uint64{s.q, s.qm, s.p} {
		for _, x := range l {
			r.Pr = append(r.Pr, lu(x))
		}
	}
	rnd := rand.New(rand.NewSource(o.Seed))
	defer func() {
		if e := recover(); e != nil {
			r.Res, r.Msg = "failed", fmt.Sprint(e)
			r.Cos = []coef{}
		}
	}()
	n := s.n
	q, p := s.q[:o.Lq+1], s.p[:o.Lp+1]
	conv := s.conv
	if o.How == "shallow" {
		conv = conv.ShallowCopy()
	}
	frame := func(name string, before string, p *ring.Poly) {
		if fp(p) != before {
			r.Frame = append(r.Frame, name)
		}
	}
	outQ, outP := s.ringQ.NewPoly(), s.ringP.NewPoly()
	junk(outQ, rnd)
	junk(outP, rnd)
	switch o.Op {
	case "upQP", "upPQ":
		in, src, dst, out := s.ringQ.NewPoly(), q, p, outP
		if o.Op == "upPQ" {
			in, src, dst, out = s.ringP.NewPoly(), p, q, outQ
		}
		for k := 0; k < n; k++ {
			fill(in, k, draw(rnd, prod(src), bigs(src), o.Style, k), src)
		}
		b := fp(in)
		if o.Op == "upQP" {
			conv.ModUpQtoP(o.Lq, o.Lp, in, out)
		} else {
			conv.ModUpPtoQ(o.Lp, o.Lq, in, out)
		}
		frame("input", b, in)
		up(r, n, in.Coeffs, out.Coeffs, src, dst)
	case "downQ", "downQntt", "downP":
		inQ, inP := s.ringQ.NewPoly(), s.ringP.NewPoly()
		all := append(append([]uint64{}, q...), p...)
		subs := []*big.Int{prod(p), prod(q)}
		for k := 0; k < n; k++ {
			x := draw(rnd, prod(all), subs, o.Style, k)
			fill(inQ, k, x, q)
			fill(inP, k, x, p)
		}
		ink, ind := clone(inQ), clone(inP)
		keep, drop, out := q, p, outQ
		switch o.Op {
		case "downQ":
			if o.How == "alias" {
				out = inQ
			}
			conv.ModDownQPtoQ(o.Lq, o.Lp, inQ, inP, out)
			frame("P part", fp(ind), inP)
		case "downQntt":
			s.ringQ.NTTLvl(o.Lq, inQ, inQ)
			s.ringP.NTTLvl(o.Lp, inP, inP)
			b := fp(inQ)
			if o.How == "alias" {
				out = inQ
			}
			conv.ModDownQPtoQNTT(o.Lq, o.Lp, inQ, inP, out)
			if o.How != "alias" {
				frame("Q part", b, inQ)
			}
			z := clone(out)
			s.ringQ.InvNTTLvl(o.Lq, z, z)
			out = z
		case "downP":
			keep, drop, out, ink, ind = p, q, outP, ind, ink
			if o.How == "alias" {
				out = inP
			}
			conv.ModDownQPtoP(o.Lq, o.Lp, inQ, inP, out)
			frame("Q part", fp(ind), inQ)
		}
		if o.Op == "downQ" && o.How != "alias" {
			frame("Q part", fp(ink), inQ)
		}
		down(r, n, ink.Coeffs, ind.Coeffs, out.Coeffs, keep, drop, big.NewInt(1))
	case "decomp":
		in := s.ringQ.NewPoly()
		style := o.Style
		if style == "unred" {
			style = "edge"
		}
		var subs []*big.Int
		for i := 0; i < len(q); i += o.Alpha {
			e := i + o.Alpha
			if e > len(q) {
				e = len(q)
			}
			subs = append(subs, prod(q[i:e]))
		}
		for k := 0; k < n; k++ {
			fill(in, k, draw(rnd, prod(q), append(subs, bigs(q)...), style, k), q)
		}
		if o.Style == "unred" && o.How != "ksntt" {
			for j := range q {
				for k := 0; k < n; k++ {
					if rnd.Intn(4) == 0 {
						in.Coeffs[j][k] = q[j]
					}
				}
			}
		}
		lo, hi := o.Blk*o.Alpha, (o.Blk+1)*o.Alpha
		if hi > len(q) {
			hi = len(q)
		}
		orig := clone(in)
		if o.How == "split" {
			s.dec.DecomposeAndSplit(o.Lq, o.Lp, o.Alpha, o.Blk, 2, in, outQ, outP)
			frame("input", fp(orig), in)
		} else {
			if o.How == "ksntt" {
				s.ringQ.NTTLvl(o.Lq, in, in)
				in.IsNTT = true
			}
			b := fp(in)
			swk := mkrlwe.NewSwitchingKey(s.rp)
			for _, v := range swk.Value {
				junk(v.Q, rnd)
				junk(v.P, rnd)
			}
			s.ks.Decompose(o.Lq, in, swk)
			frame("input", b, in)
			outQ, outP = swk.Value[o.Blk].Q, swk.Value[o.Blk].P
			s.ringQ.InvNTTLvl(o.Lq, outQ, outQ)
			s.ringP.InvNTTLvl(o.Lp, outP, outP)
		}
		up(r, n, orig.Coeffs[lo:hi], append(append([][]uint64{}, outQ.Coeffs[:o.Lq+1]...), outP.Coeffs[:o.Lp+1]...), q[lo:hi], append(append([]uint64{}, q...), p...))
	case "upQR", "rescale":
		R := append(append([]uint64{}, s.q...), s.qm...)
		in, out := s.ringQ.NewPoly(), s.bp.RingR().NewPoly()
		junk(out, rnd)
		for k := 0; k < n; k++ {
			fill(in, k, draw(rnd, prod(s.q), bigs(s.q), o.Style, k), s.q)
		}
		b := fp(in)
		if o.Op == "upQR" {
			s.bcv.ModUpQtoR(in, out)
			frame("input", b, in)
			up(r, n, in.Coeffs, out.Coeffs, s.q, R)
			break
		}
		s.bcv.Rescale(in, out)
		frame("input", b, in)
		Q, M := prod(s.q), prod(s.qm)
		for k := 0; k < n; k++ {
			c := coef{U: 1, V: 1}
			var res []*big.Int
			for j := range s.q {
				res = append(res, u(in.Coeffs[j][k]))
				c.In = append(c.In, lu(in.Coeffs[j][k]))
			}
			x := crt(res, s.q)
			c.X = limbs(x)
			for j := range s.q {
				c.Ci = append(c.Ci, cong(x, res[j], u(s.q[j])))
			}
			qt, e := new(big.Int).DivMod(mul(M, x), Q, new(big.Int))
			c.C, c.E = limbs(qt), limbs(e)
			y := func(uu, v int) *big.Int { return add(add(qt, big.NewInt(int64(uu))), mul(big.NewInt(int64(v)), M)) }
			rhs := func(j int) *big.Int { return add(add(u(out.Coeffs[j][k]), big.NewInt(1)), M) }
		search:
			for _, v := range []int{1, 2, 0} {
				for _, uu := range []int{1, 2, 0} {
					ok := true
					for j := range R {
						ok = ok && isCong(y(uu, v), rhs(j), u(R[j]))
					}
					if ok {
						c.U, c.V = uu, v
						break search
					}
				}
			}
			for j := range R {
				c.Out = append(c.Out, lu(out.Coeffs[j][k]))
				c.Co = append(c.Co, cong(y(c.U, c.V), rhs(j), u(R[j])))
			}
			r.Cos = append(r.Cos, c)
		}
	case "quant":
		R := append(append([]uint64{}, s.q...), s.qm...)
		in := s.bp.RingR().NewPoly()
		for k := 0; k < n; k++ {
			fill(in, k, draw(rnd, prod(R), []*big.Int{prod(s.qm), prod(s.q)}, o.Style, k), R)
		}
		orig := clone(in)
		s.bp.RingR().NTT(in, in)
		b := fp(in)
		s.bcv.Quantize(in, outQ, s.bp.T())
		frame("input", b, in)
		t := u(s.bp.T())
		r.T = limbs(t)
		down(r, n, orig.Coeffs[:len(s.q)], orig.Coeffs[len(s.q):], outQ.Coeffs, s.q, s.qm, t)
	case "decompR":
		R := append(append([]uint64{}, s.q...), s.qm...)
		in := s.bp.RingR().NewPoly()
		for k := 0; k < n; k++ {
			fill(in, k, draw(rnd, prod(R), append(bigs(R), prod(s.q)), o.Style, k), R)
		}
		b := fp(in)
		a1, a2 := mkrlwe.NewSwitchingKey(s.rp), mkrlwe.NewSwitchingKey(s.rp)
		s.bks.DecomposeBFV(o.Lq, in, a1, a2)
		frame("input", b, in)
		half := len(s.q) / o.Alpha
		v := a1.Value
		i := o.Blk
		if i >= half {
			v, i = a2.Value, i-half
		}
		outQ, outP = v[i].Q, v[i].P
		s.ringQ.InvNTTLvl(o.Lq, outQ, outQ)
		s.ringP.InvNTTLvl(o.Lp, outP, outP)
		lo := o.Blk * o.Alpha
		up(r, n, in.Coeffs[lo:lo+o.Alpha], append(append([][]uint64{}, outQ.Coeffs...), outP.Coeffs...), R[lo:lo+o.Alpha], append(append([]uint64{}, q...), p...))
	case "ext", "extR":
		s.external(o, r, rnd, frame)
	default:
		panic("driver: " + o.Op)
	}
	return r
}

// external records an external product with an operand whose few digits can be multiplied by hand.
func (s *setting) external(o *call, r *record, rnd *rand.Rand, frame func(string, string, *ring.Poly)) {
	n := s.n
	q, p := s.q[:o.Lq+1], s.p[:o.Lp+1]
	qp := append(append([]uint64{}, q...), p...)
	src := q
	ringIn := s.ringQ
	if o.Op == "extR" {
		src = append(append([]uint64{}, s.q...), s.qm...)
		ringIn = s.bp.RingR()
	}
	a := ringIn.NewPoly()
	pos := map[int]bool{rnd.Intn(n): true, rnd.Intn(n): true}
	for k := 0; k < n; k++ {
		switch o.Style {
		case "dense":
			fill(a, k, draw(rnd, prod(src), nil, "rand", k), src)
		case "sparse":
			if pos[k] {
				fill(a, k, draw(rnd, prod(src), nil, "rand", k), src)
			}
		case "one":
			if k == 0 {
				fill(a, k, big.NewInt(1), src)
			}
		}
	}
	orig := clone(a)
	if o.How == "ksntt" {
		ringIn.NTTLvl(o.Lq, a, a)
		a.IsNTT = true
	}
	rows := (o.Lq + o.Alpha) / o.Alpha
	mk := func() *mkrlwe.SwitchingKey {
		bg := mkrlwe.NewSwitchingKey(s.rp)
		for _, v := range bg.Value {
			junk(v.Q, rnd)
			junk(v.P, rnd)
			for j := range s.q {
				for k := range v.Q.Coeffs[j] {
					v.Q.Coeffs[j][k] %= s.q[j]
				}
			}
			for j := range s.p {
				for k := range v.P.Coeffs[j] {
					v.P.Coeffs[j][k] %= s.p[j]
				}
			}
		}
		return bg
	}
	out := s.ringQ.NewPoly()
	junk(out, rnd)
	bgs := []*mkrlwe.SwitchingKey{mk()}
	b := fp(a)
	if o.Op == "ext" {
		s.ks.ExternalProduct(o.Lq, a, bgs[0], out)
	} else {
		bgs = append(bgs, mk())
		s.bks.ExternalProductBFV(o.Lq, a, bgs[0], bgs[1], out)
	}
	frame("input", b, a)
	for k := 0; k < n; k++ {
		var l []nat
		for j := range src {
			l = append(l, lu(orig.Coeffs[j][k]))
		}
		r.A = append(r.A, l)
	}
	// the rows, as coefficients of what the Montgomery and transformed representation stands for
	coefs := [][][]uint64{} // [row][prime][k]
	for _, bg := range bgs {
		for i := 0; i < rows; i++ {
			vq, vp := clone(bg.Value[i].Q), clone(bg.Value[i].P)
			s.ringQ.InvMFormLvl(o.Lq, vq, vq)
			s.ringQ.InvNTTLvl(o.Lq, vq, vq)
			s.ringP.InvMFormLvl(o.Lp, vp, vp)
			s.ringP.InvNTTLvl(o.Lp, vp, vp)
			coefs = append(coefs, append(append([][]uint64{}, vq.Coeffs[:o.Lq+1]...), vp.Coeffs[:o.Lp+1]...))
		}
	}
	dig := make([][]*big.Int, len(coefs))
	for i := range coefs {
		lo, hi := i*o.Alpha, (i+1)*o.Alpha
		if hi > len(src) {
			hi = len(src)
		}
		dig[i] = make([]*big.Int, n)
		var dl []digit
		for k := 0; k < n; k++ {
			var res []*big.Int
			for j := lo; j < hi; j++ {
				res = append(res, u(orig.Coeffs[j][k]))
			}
			x := crt(res, src[lo:hi])
			dig[i][k] = x
			d := digit{X: limbs(x)}
			for j := lo; j < hi; j++ {
				d.Ci = append(d.Ci, cong(x, u(orig.Coeffs[j][k]), u(src[j])))
			}
			dl = append(dl, d)
		}
		r.Dig = append(r.Dig, dl)
		var bl, nl, kl [][]nat
		for j, pr := range qp {
			var b1, n1, k1 []nat
			for k := 0; k < n; k++ {
				x := coefs[i][j][k]
				b1, n1 = append(b1, lu(x)), append(n1, lu(pr-x))
				k1 = append(k1, nat{1})
			}
			bl, nl, kl = append(bl, b1), append(nl, n1), append(kl, k1)
		}
		r.Bg, r.Neg, r.Nk = append(r.Bg, bl), append(r.Neg, nl), append(r.Nk, kl)
	}
	sum := func(j, k int) *big.Int { // as in the specification
		v := new(big.Int)
		for i := range coefs {
			for l := 0; l < n; l++ {
				if l <= k {
					v.Add(v, mul(dig[i][l], u(coefs[i][j][k-l])))
				} else {
					v.Add(v, mul(dig[i][l], u(qp[j]-coefs[i][j][n+k-l])))
				}
			}
		}
		return v
	}
	m := prod(p)
	for k := 0; k < n; k++ {
		c := coef{U: 1}
		var res []*big.Int
		for j := range p {
			res = append(res, sum(len(q)+j, k))
		}
		e := crt(res, p)
		c.E = limbs(e)
		for j := range p {
			c.Cd = append(c.Cd, cong(e, res[j], u(p[j])))
		}
		var sums []*big.Int
		for j := range q {
			sums = append(sums, sum(j, k))
		}
		side := func(uu, j int) (*big.Int, *big.Int) {
			return add(mul(m, u(out.Coeffs[j][k])), add(e, mul(big.NewInt(int64(uu)), m))), add(sums[j], m)
		}
		for _, uu := range []int{1, 2, 0} {
			ok := true
			for j := range q {
				x, y := side(uu, j)
				ok = ok && isCong(x, y, u(q[j]))
			}
			if ok {
				c.U = uu
				break
			}
		}
		for j := range q {
			x, y := side(c.U, j)
			c.Out = append(c.Out, lu(out.Coeffs[j][k]))
			c.Ck = append(c.Ck, cong(x, y, u(q[j])))
		}
		r.Cos = append(r.Cos, c)
	}
}

func lines(path string, f func([]byte)) {
	fh, err := os.Open(path)
	must(err)
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(sc.Bytes()) > 0 {
			f(sc.Bytes())
		}
	}
	must(sc.Err())
}

func main() {
	cfgs := flag.String("cfgs", "", "")
	in := flag.String("in", "", "")
	out := flag.String("out", "", "")
	workers := flag.Int("j", 8, "")
	par := flag.Int("par", 0, "run the calls in so many threads, under the race detector")
	flag.Parse()
	cm := map[string]*cfg{}
	lines(*cfgs, func(b []byte) {
		c := new(cfg)
		must(json.Unmarshal(b, c))
		cm[c.Name] = c
	})
	byCfg := map[string][]*call{}
	lines(*in, func(b []byte) {
		o := new(call)
		must(json.Unmarshal(b, o))
		byCfg[o.Cfg] = append(byCfg[o.Cfg], o)
	})
	fh, err := os.Create(*out)
	must(err)
	bw := bufio.NewWriterSize(fh, 1<<20)
	enc := json.NewEncoder(bw)
	if *par > 0 {
		rf, err := os.Create(*out + ".races")
		must(err)
		re := json.NewEncoder(rf)
		for name, l := range byCfg {
			s := newSetting(cm[name])
			from := racelog.Size()
			var wg sync.WaitGroup
			start := make(chan bool)
			recs := make([][]*record, *par)
			for t := 0; t < *par; t++ {
				v := s
				if t > 0 {
					v = s.fork()
				}
				wg.Add(1)
				go func(t int, v *setting) {
					defer wg.Done()
					<-start
					for i := range l {
						o := *l[(i + t*len(l) / *par)%len(l)]
						recs[t] = append(recs[t], v.do(&o))
					}
				}(t, v)
			}
			close(start)
			wg.Wait()
			for _, l := range recs {
				for _, r := range l {
					must(enc.Encode(r))
				}
			}
			must(re.Encode(map[string]interface{}{"cfg": name, "threads": *par, "races": racelog.Since(from)}))
		}
		must(bw.Flush())
		must(fh.Close())
		must(rf.Close())
		return
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, *workers)
	for name, l := range byCfg {
		wg.Add(1)
		go func(name string, l []*call) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			s := newSetting(cm[name])
			for _, o := range l {
				r := s.do(o)
				mu.Lock()
				must(enc.Encode(r))
				mu.Unlock()
			}
		}(name, l)
	}
	wg.Wait()
	must(bw.Flush())
	must(fh.Close())
}
