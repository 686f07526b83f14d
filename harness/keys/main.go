// Command keys runs histories of key generations (spec/KeysGen.tla) on the real code, and
// records every generated key with the integers behind it for spec/Keys.tla.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/big"
	"os"
	"sort"
	"sync"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
	. "verifharness/nat"
)

type cfg struct {
	Name  string  `json:"name"`
	LogN  int     `json:"logn"`
	Qb    []int   `json:"qb"`
	Pb    []int   `json:"pb"`
	QMb   []int   `json:"qmb"`
	T     uint64  `json:"t"`
	Sigma float64 `json:"sigma"`
}

type hop struct {
	Op  string `json:"op"`
	G   int    `json:"g"`
	ID  string `json:"id"`
	How string `json:"how"`
	P   int    `json:"p"`
	Hw  int    `json:"hw"`
	Sk  int    `json:"sk"`
	R   int    `json:"r"`
	Bfv bool   `json:"bfv"`
	Arg int    `json:"arg"`
	Idx int    `json:"idx"`
}

type hist struct {
	Cfg string `json:"cfg"`
	Ops []hop  `json:"ops"`
	W   int    `json:"w"`
}

type ref struct {
	Idx  int       `json:"idx"`
	Rows [][][]Nat `json:"rows"` // row, prime, coefficient
}

type worldRec struct {
	W     int     `json:"w"`
	Cfg   string  `json:"cfg"`
	N     int     `json:"n"`
	Nq    int     `json:"nq"`
	Np    int     `json:"np"`
	Nm    int     `json:"nm"`
	Alpha int     `json:"alpha"`
	T     Nat     `json:"t"`
	Pr    []Nat   `json:"pr"`
	Bound int     `json:"bound"`
	Crs   []ref   `json:"crs"`
	Raw   [][]Nat `json:"raw"`
	Added [][]int `json:"added"` // amounts references were added for, and when
}

type rowRec struct {
	Key [][]Nat  `json:"key"`
	E   []int    `json:"e"`
	Q   [][]Cert `json:"q"`

	same bool
}

type gad struct {
	G   Nat `json:"g"`
	Ti  Nat `json:"ti"`
	K   Nat `json:"k"`
	Rem Nat `json:"rem"`
}

type caseRec struct {
	Num    int      `json:"num"`
	W      int      `json:"w"`
	At     int      `json:"at"` // place in the history
	Kind   string   `json:"kind"`
	ID     string   `json:"id"`
	How    string   `json:"how"`
	Hw     int      `json:"hw"`
	P      int      `json:"p"`
	Arg    int      `json:"arg"`
	Idx    int      `json:"idx"`
	S      []int    `json:"s"`
	R      []int    `json:"r"`
	Sres   [][]Nat  `json:"sres"`
	Rows   []rowRec `json:"rows"`
	Pk1    [][]Nat  `json:"pk1"`
	Gad    []gad    `json:"gad"`
	TagID  string   `json:"tagid"`
	TagIdx int      `json:"tagidx"`
	Res    string   `json:"res"`
	Msg    string   `json:"msg"`
	Frame  []string `json:"frame"`

	same bool
}

type world struct {
	rec     *worldRec
	q, p, m []uint64
	qp      []uint64
	n       int
	rp      mkrlwe.Parameters
	bp      mkbfv.Parameters
	kp      mkckks.Parameters
	fast    bool // measure only
	events  []*event
	sig     int
	hist    int
	seen    map[string]string
	isBfv   bool
	gen     [2]*mkrlwe.KeyGenerator
	bgen    [2]*mkbfv.KeyGenerator
	sks     []*mkrlwe.SecretKey
	ints    [][]int
	out     []*caseRec
	crsN    map[int][][][]uint64 // references, as coefficients
}

// coefs returns the coefficients of a polynomial in NTT form; mform: also in Montgomery form.
func (w *world) coefs(v rlwe.PolyQP, mform bool) [][]uint64 {
	ringQP := w.rp.RingQP()
	lq, lp := len(w.q)-1, len(w.p)-1
	x := v.CopyNew()
	if mform {
		ringQP.InvMFormLvl(lq, lp, x, x)
	}
	ringQP.InvNTTLvl(lq, lp, x, x)
	var out [][]uint64
	for i := range x.Q.Coeffs {
		out = append(out, reduce(x.Q.Coeffs[i], w.q[i]))
	}
	for i := range x.P.Coeffs {
		out = append(out, reduce(x.P.Coeffs[i], w.p[i]))
	}
	return out
}

func reduce(a []uint64, m uint64) []uint64 {
	for i := range a {
		a[i] %= m
	}
	return a
}

func nats(a [][]uint64) [][]Nat {
	var out [][]Nat
	for _, l := range a {
		var r []Nat
		for _, x := range l {
			r = append(r, OfU(x))
		}
		out = append(out, r)
	}
	return out
}

func newWorld(c *cfg, id int) *world {
	w := &world{n: 1 << c.LogN}
	g := Primes(c.LogN, c.Qb, c.Pb, c.QMb)
	w.q, w.p, w.m = g[0], g[1], g[2]
	w.qp = append(append([]uint64{}, w.q...), w.p...)
	if c.T > 0 {
		w.isBfv = true
		w.bp = mkbfv.NewParametersFromLiteral(mkbfv.ParametersLiteral{LogN: c.LogN, Q: w.q, QMul: w.m, P: w.p, T: c.T, Sigma: c.Sigma})
		w.rp = w.bp.Parameters
	} else {
		cp, err := ckks.NewParametersFromLiteral(ckks.ParametersLiteral{LogN: c.LogN, LogSlots: c.LogN - 1, Q: w.q, P: w.p, Scale: 1 << 40, Sigma: c.Sigma})
		Must(err)
		w.kp = mkckks.NewParameters(cp)
		w.rp = w.kp.Parameters
	}
	for i := range w.gen {
		if w.isBfv {
			w.bgen[i] = mkbfv.NewKeyGenerator(w.bp)
			w.gen[i] = w.bgen[i].KeyGenerator
		} else {
			w.gen[i] = mkrlwe.NewKeyGenerator(w.rp)
		}
	}
	w.rec = &worldRec{W: id, Cfg: c.Name, N: w.n, Nq: len(w.q), Np: len(w.p), Nm: len(w.m), Alpha: len(w.p) / 2, T: OfU(c.T), Bound: int(6 * c.Sigma)}
	for _, l := range [][]uint64{w.q, w.m, w.p} {
		for _, x := range l {
			w.rec.Pr = append(w.rec.Pr, OfU(x))
		}
	}
	return w
}

func (w *world) refs() {
	if w.fast {
		w.refEvents()
	}
	w.crsN = map[int][][][]uint64{}
	if w.fast && w.n > 0 {
		for i := range w.rp.CRS {
			for _, v := range w.rp.CRS[i].Value {
				w.crsN[i] = append(w.crsN[i], w.coefs(v, true))
			}
		}
		return
	}
	w.rec.Crs = nil
	var idx []int
	for i := range w.rp.CRS {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	for _, i := range idx {
		r := ref{Idx: i}
		for _, v := range w.rp.CRS[i].Value {
			c := w.coefs(v, true)
			w.crsN[i] = append(w.crsN[i], c)
			r.Rows = append(r.Rows, nats(c))
		}
		w.rec.Crs = append(w.rec.Crs, r)
	}
	w.rec.Raw = nats(w.coefs(w.rp.CRS[0].Value[0], false))
}

func hash(vs ...rlwe.PolyQP) uint64 {
	h := fnv.New64a()
	for _, v := range vs {
		for _, p := range []*ring.Poly{v.Q, v.P} {
			for _, l := range p.Coeffs {
				for _, x := range l {
					h.Write([]byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24), byte(x >> 32), byte(x >> 40), byte(x >> 48), byte(x >> 56)})
				}
			}
		}
	}
	return h.Sum64()
}

// state fingerprints what a generation may not change.
func (w *world) state() map[string]uint64 {
	m := map[string]uint64{}
	for i, k := range w.rp.CRS {
		m[fmt.Sprint("reference ", i)] = hash(k.Value...)
	}
	for i, s := range w.sks {
		m[fmt.Sprint("secret key ", i+1)] = hash(s.Value)
	}
	return m
}

// center returns the small integers a polynomial stands for, according to its first prime.
func (w *world) center(c []uint64, p uint64) []int {
	out := make([]int, w.n)
	for k, x := range c {
		v := int64(x)
		if x > p/2 {
			v = -int64(p - x)
		}
		if v > 1000000 {
			v = 1000000
		}
		if v < -1000000 {
			v = -1000000
		}
		out[k] = int(v)
	}
	return out
}

func (w *world) add(r *caseRec) {
	r.W = w.rec.W
	if r.Frame == nil {
		r.Frame = []string{}
	}
	if w.fast {
		w.drawn(r)
		return
	}
	w.out = append(w.out, r)
}

// relation fills the rows of a key: key + t*a = g*G + e.
func (w *world) relation(r *caseRec, rows []rlwe.PolyQP, mform bool, t []int, a [][][]uint64, g []int, G func(i, j int) *big.Int) {
	off := big.NewInt(4096)
	for i, v := range rows {
		c := w.coefs(v, mform)
		row := rowRec{Q: make([][]Cert, len(w.qp)), same: true}
		if !w.fast {
			row.Key = nats(c)
		}
		for j, p := range w.qp {
			P := U(p)
			gj := G(i, j)
			var ev []uint64
			type sides struct{ l, r *big.Int }
			var ss []sides
			for k := 0; k < w.n; k++ {
				l, rr := Add(U(c[j][k]), off), new(big.Int)
				if a != nil {
					for x := 0; x < w.n; x++ {
						src, sg := k-x, 1
						if src < 0 {
							src, sg = src+w.n, -1
						}
						if z := sg * t[x]; z > 0 {
							l = Add(l, Mul(big.NewInt(int64(z)), U(a[i][j][src])))
						} else if z < 0 {
							rr = Add(rr, Mul(big.NewInt(int64(-z)), U(a[i][j][src])))
						}
					}
				}
				if g[k] > 0 {
					rr = Add(rr, Mul(big.NewInt(int64(g[k])), gj))
				} else if g[k] < 0 {
					l = Add(l, Mul(big.NewInt(int64(-g[k])), gj))
				}
				d := new(big.Int).Sub(l, rr)
				d.Sub(d, off)
				ev = append(ev, d.Mod(d, P).Uint64())
				ss = append(ss, sides{l, rr})
			}
			if j == 0 {
				row.E = w.center(ev, p)
			}
			if w.fast {
				for k, x := range w.center(ev, p) {
					if x != row.E[k] {
						row.same = false
					}
				}
				continue
			}
			for k := 0; k < w.n; k++ {
				row.Q[j] = append(row.Q[j], Cong(ss[k].l, Add(ss[k].r, big.NewInt(int64(4096+row.E[k]))), P))
			}
		}
		r.Rows = append(r.Rows, row)
	}
}

func image(s []int, g, n int) []int {
	out := make([]int, n)
	for i, x := range s {
		e := (i * g) % (2 * n)
		if e >= n {
			out[e-n] = -x
		} else {
			out[e] = x
		}
	}
	return out
}

func powmod(b, e, m int) int {
	r := 1
	for ; e > 0; e-- {
		r = r * b % m
	}
	return r
}

func neg(s []int) []int {
	out := make([]int, len(s))
	for i := range s {
		out[i] = -s[i]
	}
	return out
}

func (w *world) plain(i, j int) *big.Int {
	if j < len(w.q) && j/w.rec.Alpha == i {
		return Prod(w.p)
	}
	return new(big.Int)
}

func (w *world) scaled(half int) (func(i, j int) *big.Int, []gad) {
	var gs []*big.Int
	var gd []gad
	al := w.rec.Alpha
	R := append(append([]uint64{}, w.q...), w.m...)
	base := w.q
	if half == 2 {
		base = w.m
	}
	M := Prod(w.m)
	for i := 0; i < len(w.q)/al; i++ {
		Qi := Prod(base[i*al : (i+1)*al])
		rest := new(big.Int).Div(Prod(R), Qi)
		ti := new(big.Int).ModInverse(new(big.Int).Mod(rest, Qi), Qi)
		k := new(big.Int).Div(Mul(ti, rest), Qi)
		num := Mul(Mul(Mul(U(w.bp.T()), ti), rest), Prod(w.p))
		g, rem := new(big.Int).DivMod(num, M, new(big.Int))
		gs = append(gs, g)
		gd = append(gd, gad{Of(g), Of(ti), Of(k), Of(rem)})
	}
	return func(i, j int) *big.Int { return gs[i] }, gd
}

func (w *world) do(at int, o *hop) {
	g := w.gen[(o.G+1)%2]
	r := &caseRec{At: at, Kind: o.Op, Res: "ok", P: o.P}
	zero := make([]int, w.n)
	before := w.state()
	finish := func() {
		after := w.state()
		for n, h := range before {
			if after[n] != h {
				r.Frame = append(r.Frame, n)
			}
		}
	}
	defer func() {
		if e := recover(); e != nil {
			r.Res, r.Msg = "refused", fmt.Sprint(e)
			finish()
			w.add(r)
		}
	}()
	var sk, rk *mkrlwe.SecretKey
	var s, rs []int
	if o.Sk > 0 {
		sk, s = w.sks[o.Sk-1], w.ints[o.Sk-1]
		r.ID, r.S = sk.ID, s
	}
	if o.R > 0 {
		rk, rs = w.sks[o.R-1], w.ints[o.R-1]
		r.R = rs
	}
	pk := func(k *mkrlwe.PublicKey) {
		r.Kind, r.TagID = "pk", k.ID
		v := rlwe.PolyQP{Q: k.Value[1].Q, P: k.Value[1].P}
		a := w.coefs(v, false)
		r.Pk1 = nats(a)
		w.relation(r, []rlwe.PolyQP{{Q: k.Value[0].Q, P: k.Value[0].P}}, false, r.S, [][][]uint64{a}, zero, w.plain)
		w.add(r)
	}
	rot := func(k *mkrlwe.RotationKey, idx int) {
		x := *r
		r := &x
		r.Kind, r.TagID, r.TagIdx, r.Idx, r.Arg = "rot", k.ID, int(k.RotIdx), int(k.RotIdx), idx
		h := w.n / 2
		e := ((h-idx%h)%h + h) % h
		a := w.crsN[int(k.RotIdx)]
		if a == nil {
			a = w.crsN[1]
		}
		w.relation(r, k.Value.Value, true, image(s, powmod(5, e, 2*w.n), w.n), a, s, w.plain)
		w.add(r)
	}
	part := func(kind string, id string, v *mkrlwe.SwitchingKey, t []int, crs int, gg []int, G func(i, j int) *big.Int, gd []gad) {
		x := *r
		x.Kind, x.TagID, x.Gad = kind, id, gd
		var a [][][]uint64
		if t != nil {
			a = w.crsN[crs]
		}
		w.relation(&x, v.Value, true, t, a, gg, G)
		w.add(&x)
	}
	switch o.Op {
	case "sk":
		r.ID, r.How, r.Hw = o.ID, o.How, o.Hw
		if o.Hw == 0 {
			r.Hw, o.Hw = 1, 1
		}
		var k *mkrlwe.PublicKey
		switch o.How {
		case "std":
			sk = g.GenSecretKey(o.ID)
		case "pair":
			sk, k = g.GenKeyPair(o.ID)
		case "distrib":
			sk = g.GenSecretKeyWithDistrib(float64(o.P)/10, o.ID)
		case "sparse":
			sk = g.GenSecretKeySparse(o.Hw, o.ID)
		case "psparse":
			r.How = "sparse"
			sk, k = g.GenKeyPairSparse(o.Hw, o.ID)
		case "gauss":
			sk = g.GenSecretKeyGaussian(o.ID)
		}
		res := w.coefs(sk.Value, true)
		r.S, r.TagID, r.same = w.center(res[0], w.q[0]), sk.ID, true
		if !w.fast {
			r.Sres = nats(res)
		}
		for j := range res {
			for k, x := range w.center(res[j], w.qp[j]) {
				r.same = r.same && x == r.S[k]
			}
		}
		finish()
		w.add(r)
		w.sks = append(w.sks, sk)
		w.ints = append(w.ints, r.S)
		if k != nil {
			r = &caseRec{At: at, Kind: "pk", Res: "ok", ID: o.ID, S: r.S}
			pk(k)
		}
	case "pk":
		k := g.GenPublicKey(sk)
		finish()
		pk(k)
	case "rlk":
		if !w.isBfv {
			k := g.GenRelinearizationKey(sk, rk)
			finish()
			part("b", k.ID, k.Value[0], s, 0, zero, w.plain, nil)
			part("d", k.ID, k.Value[1], rs, 0, s, w.plain, nil)
			part("v", k.ID, k.Value[2], s, -1, neg(rs), w.plain, nil)
		} else {
			k := w.bgen[(o.G+1)%2].GenRelinearizationKey(sk, rk)
			finish()
			part("b1", k.ID, k.Value[0].Value[0], s, 0, zero, w.plain, nil)
			part("b2", k.Value[1].ID, k.Value[1].Value[0], s, -3, zero, w.plain, nil)
			g1, d1 := w.scaled(1)
			g2, d2 := w.scaled(2)
			part("d1", k.Value[0].ID, k.Value[0].Value[1], rs, 0, s, g1, d1)
			part("d2", k.ID, k.Value[1].Value[1], rs, -3, s, g2, d2)
			part("v", k.ID, k.Value[0].Value[2], s, -1, neg(rs), w.plain, nil)
		}
	case "cjk":
		k := g.GenConjugationKey(sk)
		finish()
		part("cjk", k.ID, k.Value, s, -2, image(s, 2*w.n-1, w.n), w.plain, nil)
	case "swk":
		if o.Bfv {
			a, b := mkrlwe.NewSwitchingKey(w.rp), mkrlwe.NewSwitchingKey(w.rp)
			w.bgen[(o.G+1)%2].GenBFVSwitchingKey(sk, a, b)
			finish()
			g1, d1 := w.scaled(1)
			g2, d2 := w.scaled(2)
			part("s1", sk.ID, a, nil, 0, s, g1, d1)
			part("s2", sk.ID, b, nil, 0, s, g2, d2)
		} else {
			a := mkrlwe.NewSwitchingKey(w.rp)
			g.GenSwitchingKey(sk, a)
			finish()
			part("swk", sk.ID, a, nil, 0, s, w.plain, nil)
		}
	case "rot":
		r.Arg = o.Arg
		k := g.GenRotationKey(o.Arg, sk)
		finish()
		rot(k, o.Arg)
	case "def":
		set := mkrlwe.NewRotationKeySet()
		g.GenDefaultRotationKeys(sk, set)
		finish()
		var ks []int
		for i := range set.Value[sk.ID] {
			ks = append(ks, int(i))
		}
		sort.Ints(ks)
		if len(set.Value) != 1 || len(ks) != w.rp.LogN()-1 {
			r.Frame = append(r.Frame, "the set has other keys than the powers of two")
			r.Kind = "none"
		}
		for _, i := range ks {
			rot(set.Value[sk.ID][uint(i)], i)
		}
		if len(r.Frame) > 0 {
			w.add(r)
		}
	case "crs":
		w.rp.AddCRS(o.Idx)
		w.rec.Added = append(w.rec.Added, []int{o.Idx, at})
		w.refs()
	default:
		panic("driver: " + o.Op)
	}
}

func main() {
	cfgs := flag.String("cfgs", "", "")
	in := flag.String("in", "", "")
	out := flag.String("out", "", "")
	workers := flag.Int("j", 8, "")
	measure := flag.Bool("m", false, "record the noise only, as events for spec/Fresh.tla")
	enc := flag.String("enc", "", "histories of spec/FreshGen.tla")
	par := flag.Int("par", 0, "run every history of -enc in so many threads, under the race detector")
	flag.Parse()
	cm := map[string]*cfg{}
	Lines(*cfgs, func(b []byte) {
		c := new(cfg)
		Must(json.Unmarshal(b, c))
		cm[c.Name] = c
	})
	var hs []*hist
	Lines(*in, func(b []byte) {
		h := new(hist)
		Must(json.Unmarshal(b, h))
		hs = append(hs, h)
	})
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, *workers)
	open := func(n string) (*os.File, *bufio.Writer, *json.Encoder) {
		fh, err := os.Create(n)
		Must(err)
		bw := bufio.NewWriterSize(fh, 1<<20)
		return fh, bw, json.NewEncoder(bw)
	}
	if *par > 0 {
		_, bv, ev := open(*out + ".events")
		_, br, er := open(*out + ".races")
		Lines(*enc, func(b []byte) {
			h := new(fhist)
			Must(json.Unmarshal(b, h))
			ws, races := together(cm[h.Cfg], h, *par)
			for _, w := range ws {
				for _, e := range w.events {
					Must(ev.Encode(e))
				}
			}
			Must(er.Encode(map[string]interface{}{"cfg": h.Cfg, "w": h.W, "threads": *par, "races": races}))
		})
		Must(bv.Flush())
		Must(br.Flush())
		return
	}
	if *measure {
		_, bv, ev := open(*out + ".events")
		var es [][]*event
		run := func(f func() *world) {
			wg.Add(1)
			i := len(es)
			es = append(es, nil)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				w := f()
				mu.Lock()
				es[i] = w.events
				mu.Unlock()
			}()
		}
		for _, h := range hs {
			h := h
			mu.Lock()
			run(func() *world {
				w := newWorld(cm[h.Cfg], h.W)
				w.sig, w.fast = int(10*cm[h.Cfg].Sigma+0.5), true
				w.refs()
				for i := range h.Ops {
					w.do(i+1, &h.Ops[i])
				}
				return w
			})
			mu.Unlock()
		}
		Lines(*enc, func(b []byte) {
			h := new(fhist)
			Must(json.Unmarshal(b, h))
			mu.Lock()
			run(func() *world { return fresh(cm[h.Cfg], h) })
			mu.Unlock()
		})
		wg.Wait()
		for _, l := range es {
			for _, e := range l {
				Must(ev.Encode(e))
			}
		}
		Must(bv.Flush())
		return
	}
	fw, bw, ew := open(*out + ".worlds")
	fc, bc, ec := open(*out + ".cases")
	for _, h := range hs {
		wg.Add(1)
		go func(h *hist) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			w := newWorld(cm[h.Cfg], h.W)
			w.refs()
			for i := range h.Ops {
				w.do(i+1, &h.Ops[i])
			}
			mu.Lock()
			defer mu.Unlock()
			Must(ew.Encode(w.rec))
			for _, r := range w.out {
				Must(ec.Encode(r))
			}
		}(h)
	}
	wg.Wait()
	Must(bw.Flush())
	Must(bc.Flush())
	Must(fw.Close())
	Must(fc.Close())
}
