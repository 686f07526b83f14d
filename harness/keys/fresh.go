package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"math/rand"
	"sort"
	"sync"

	"github.com/ldsec/lattigo/v2/bfv"
	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
	"verifharness/racelog"
)

// event is one step of a history for spec/Fresh.tla.
type event struct {
	K    string `json:"k"`
	W    int    `json:"w"`
	At   int    `json:"at"`
	Cfg  string `json:"cfg"`
	Pool string `json:"pool"`
	// samples
	Cls  string `json:"cls"`
	P    int    `json:"p"`
	Hw   int    `json:"hw"`
	Sig  int    `json:"sig"`
	V    []int  `json:"v"`
	Same bool   `json:"same"`
	// references
	Fp  string `json:"fp"`
	Cnt int    `json:"cnt"`
	Hi  int    `json:"hi"`
	// encryption and decryption
	N     int      `json:"n"`
	ID    string   `json:"id"`
	Pl    int      `json:"pl"`
	Cl    int      `json:"cl"`
	Pn    bool     `json:"pn"`
	Cn    bool     `json:"cn"`
	Res   string   `json:"res"`
	Msg   string   `json:"msg"`
	Lev   int      `json:"lev"`
	Ntt   bool     `json:"ntt"`
	Ids   []string `json:"ids"`
	Need  []string `json:"need"`
	Keys  []string `json:"keys"`
	Frame []string `json:"frame"`
}

func (w *world) emit(e *event) {
	e.W, e.Cfg, e.Sig, e.N = w.rec.W, w.rec.Cfg, w.sig, w.n
	w.events = append(w.events, e)
}

// drawn turns the noise of a key into events.
func (w *world) drawn(r *caseRec) {
	if r.Res != "ok" {
		return
	}
	sg := fmt.Sprintf(" %d", w.sig)
	if r.Kind == "sk" {
		e := &event{K: "vec", At: r.At, V: r.S, Same: r.same, Hw: r.Hw, P: 10 * r.P / 10}
		switch r.How {
		case "gauss":
			e.Cls, e.Pool = "gauss", "secret key gauss"+sg
		case "sparse":
			e.Cls, e.Pool = "sparse", "secret key sparse"
		case "distrib":
			e.Cls, e.Pool = "dist", fmt.Sprint("secret key density ", r.P)
		default:
			e.Cls, e.Pool = "ternary", "secret key"
		}
		w.emit(e)
	}
	for _, row := range r.Rows {
		w.emit(&event{K: "vec", At: r.At, Cls: "gauss", Pool: "key " + r.Kind + sg, V: row.E, Same: row.same})
	}
}

// refEvents records the references that are new or have changed.
func (w *world) refEvents() {
	if w.seen == nil {
		w.seen = map[string]string{}
	}
	var idx []int
	for i := range w.rp.CRS {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	for _, i := range idx {
		for r, v := range w.rp.CRS[i].Value {
			rows := append(append([][]uint64{}, v.Q.Coeffs...), v.P.Coeffs...)
			for j, c := range rows {
				hi := 0
				for _, x := range c {
					if x > w.qp[j]/2 {
						hi++
					}
				}
				p := ring.NewPoly(w.n, 1)
				projective(p.Coeffs[0], c, w.qp[j])
				fp := fmt.Sprintf("%x", hash(rlwe.PolyQP{Q: p, P: ring.NewPoly(w.n, 1)}))
				at := fmt.Sprint(i, ":", r, ":", j)
				if w.seen[at] != fp {
					w.seen[at] = fp
					w.emit(&event{K: "ref", Pool: "reference", Fp: fp, Cnt: len(c), Hi: hi})
				}
			}
		}
	}
}

// projective divides a row by its first invertible value: multiples of a row are the same randomness.
func projective(out, c []uint64, p uint64) {
	inv := uint64(1)
	for _, x := range c {
		if x%p != 0 {
			inv = new(big.Int).ModInverse(new(big.Int).SetUint64(x%p), new(big.Int).SetUint64(p)).Uint64()
			break
		}
	}
	for i, x := range c {
		hi, lo := bits.Mul64(x%p, inv)
		_, out[i] = bits.Div64(hi, lo, p)
	}
}

type fop struct {
	Op    string `json:"op"`
	X     int    `json:"x"`
	Via   string `json:"via"`
	Pk    int    `json:"pk"`
	Style string `json:"style"`
	Pl    int    `json:"pl"`
	Pn    bool   `json:"pn"`
	Cl    int    `json:"cl"`
	Cn    bool   `json:"cn"`
	Into  int    `json:"into"`
	C     int    `json:"c"`
	Keys  []int  `json:"keys"`
	Idx   int    `json:"idx"`
}

type fhist struct {
	Cfg  string `json:"cfg"`
	W    int    `json:"w"`
	Seed int64  `json:"seed"`
	Ops  []fop  `json:"ops"`
}

type fct struct {
	ct *mkrlwe.Ciphertext
	pk int
	id string
	m  [][]uint64 // the plaintext, as coefficients
}

const craft = 1 << 20

func party(k int) string {
	if k == 0 {
		return "craft"
	}
	return fmt.Sprint("party ", k)
}

func hashPoly(p *ring.Poly) uint64 {
	if p == nil {
		return 0
	}
	h := hash(rlwe.PolyQP{Q: p, P: ring.NewPoly(1, 1)})
	if p.IsNTT {
		h += 77
	}
	return h
}

func hashCt(ct *mkrlwe.Ciphertext) uint64 {
	var ids []string
	for id := range ct.Value {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	h := uint64(len(ids))
	for _, id := range ids {
		h = h*1099511628211 + hashPoly(ct.Value[id])
		for _, c := range []byte(id) {
			h = h*1099511628211 + uint64(c)
		}
	}
	return h
}

func idsOf(ct *mkrlwe.Ciphertext) []string {
	out := []string{}
	for id := range ct.Value {
		if id != "0" {
			out = append(out, id)
		}
	}
	sort.Strings(out)
	return out
}

// poly returns the coefficients of a polynomial modulo q.
func (w *world) poly(p *ring.Poly) [][]uint64 {
	lev := len(p.Coeffs) - 1
	x := ring.NewPoly(w.n, lev+1)
	for i := range p.Coeffs {
		copy(x.Coeffs[i], p.Coeffs[i])
	}
	if p.IsNTT {
		w.rp.RingQ().InvNTTLvl(lev, x, x)
	}
	for i := range x.Coeffs {
		reduce(x.Coeffs[i], w.q[i])
	}
	return x.Coeffs
}

// small subtracts m and returns the integers, and whether every prime has the same.
func (w *world) small(a, m [][]uint64) ([]int, bool) {
	var out []int
	same := m == nil || len(a) <= len(m)
	for j := range a {
		d := make([]uint64, w.n)
		for k := range d {
			y := uint64(0)
			if j < len(m) {
				y = m[j][k] % w.q[j]
			}
			d[k] = (a[j][k] + w.q[j] - y) % w.q[j]
		}
		c := w.center2(d, w.q[j])
		if j == 0 {
			out = c
			continue
		}
		for k := range c {
			if c[k] != out[k] {
				same = false
			}
		}
	}
	return out, same
}

func (w *world) center2(c []uint64, p uint64) []int {
	out := make([]int, w.n)
	for k, x := range c {
		v := int64(x)
		if x > p/2 {
			v = -int64(p - x)
		}
		if v > 1<<30 {
			v = 1 << 30
		}
		if v < -(1 << 30) {
			v = -(1 << 30)
		}
		out[k] = int(v)
	}
	return out
}

// mulS multiplies by the small polynomial s.
func (w *world) mulS(a [][]uint64, s []int) [][]uint64 {
	out := make([][]uint64, len(a))
	for j := range a {
		q := w.q[j]
		out[j] = make([]uint64, w.n)
		for i, t := range s {
			for k := 0; t != 0 && k < w.n; k++ {
				to, sg := i+k, t
				if to >= w.n {
					to, sg = to-w.n, -t
				}
				x := a[j][k]
				if sg < 0 {
					x, sg = (q-x)%q, -sg
				}
				hi, lo := bits.Mul64(x, uint64(sg)%q)
				_, x = bits.Div64(hi, lo, q)
				out[j][to] = (out[j][to] + x) % q
			}
		}
	}
	return out
}

func (w *world) addTo(a, b [][]uint64) [][]uint64 {
	out := make([][]uint64, len(a))
	for j := range a {
		out[j] = make([]uint64, w.n)
		for k := range out[j] {
			out[j][k] = (a[j][k] + b[j][k]) % w.q[j]
		}
	}
	return out
}

// frun is what the threads of a history share: parameters and keys.
type frun struct {
	w      *world
	ringQ  *ring.Ring
	maxlev int
	pks    []*mkrlwe.PublicKey
	sks    []*mkrlwe.SecretKey
	secret [][]int
	ckp    ckks.Parameters
	bfp    bfv.Parameters
}

// fthread has contexts of its own.
type fthread struct {
	w    *world
	kenc [3]*mkckks.Encryptor
	benc [3]*mkbfv.Encryptor
	decs [2]*mkrlwe.Decryptor
	kcod ckks.Encoder
	bcod bfv.Encoder
	rng  *rand.Rand
	cts  []*fct
	last [][]uint64
}

// prep is a plaintext, in the form the operation wants.
type prep struct {
	m    [][]uint64 // its coefficients
	pt   *ring.Poly
	kmsg *mkckks.Message
	bmsg *mkbfv.Message
	kpt  *ckks.Plaintext
	bpt  *bfv.Plaintext
}

func newRun(c *cfg, id int) *frun {
	w := newWorld(c, id)
	w.sig, w.fast = int(10*c.Sigma+0.5), true
	w.refs()
	f := &frun{w: w, ringQ: w.rp.RingQ(), maxlev: len(w.q) - 1}
	f.pks = make([]*mkrlwe.PublicKey, 4)
	f.sks = make([]*mkrlwe.SecretKey, 4)
	f.secret = make([][]int, 4)
	f.pks[0] = mkrlwe.NewPublicKey(w.rp, party(0))
	for i := range f.pks[0].Value {
		for _, l := range f.pks[0].Value[i].Q.Coeffs {
			for k := range l {
				l[k] = craft
			}
		}
	}
	for k := 1; k < 4; k++ {
		f.sks[k], f.pks[k] = w.gen[k%2].GenKeyPair(party(k))
		f.secret[k] = w.center(w.coefs(f.sks[k].Value, true)[0], w.q[0])
	}
	f.ckp, _ = ckks.NewParameters(w.rp.Parameters, w.rp.LogN()-1, 1<<40)
	if w.isBfv {
		f.bfp, _ = bfv.NewParameters(w.rp.Parameters, w.bp.T())
	}
	return f
}

func (f *frun) thread(seed int64) *fthread {
	w := *f.w
	t := &fthread{w: &w, rng: rand.New(rand.NewSource(seed))}
	for i := range t.kenc {
		if w.isBfv {
			t.benc[i] = mkbfv.NewEncryptor(w.bp)
		} else {
			t.kenc[i] = mkckks.NewEncryptor(w.kp)
		}
	}
	for i := range t.decs {
		t.decs[i] = mkrlwe.NewDecryptor(w.rp)
	}
	if w.isBfv {
		t.bcod = bfv.NewEncoder(f.bfp)
	} else {
		t.kcod = ckks.NewEncoder(f.ckp)
	}
	return t
}

// state fingerprints what the operations may not change.
func (f *frun) state(t *fthread) map[string]uint64 {
	m := map[string]uint64{}
	for k, pk := range f.pks {
		m["public key of "+party(k)] = hash(rlwe.PolyQP{Q: pk.Value[0].Q, P: pk.Value[0].P}, rlwe.PolyQP{Q: pk.Value[1].Q, P: pk.Value[1].P})
		if f.sks[k] != nil {
			m["secret key of "+party(k)] = hash(f.sks[k].Value)
		}
	}
	for i, c := range t.cts {
		m[fmt.Sprint("ciphertext ", i+1)] = hashCt(c.ct)
	}
	return m
}

func (f *frun) random(t *fthread, style string) [][]uint64 {
	if style == "same" && t.last != nil {
		return t.last
	}
	w := t.w
	m := make([][]uint64, f.maxlev+1)
	for j := range m {
		m[j] = make([]uint64, w.n)
	}
	for k := 0; k < w.n; k++ {
		z := t.rng.Intn(201) - 100
		for j := range m {
			switch style {
			case "zero":
			case "small":
				m[j][k] = uint64(int64(w.q[j])+int64(z)) % w.q[j]
			default:
				m[j][k] = t.rng.Uint64() % w.q[j]
			}
		}
	}
	return m
}

func (f *frun) prepare(t *fthread, o *fop) *prep {
	p := &prep{}
	if o.Op != "enc" {
		return p
	}
	if o.Via == "rlwe" {
		p.m = f.random(t, o.Style)
		p.pt = ring.NewPoly(t.w.n, o.Pl+1)
		for j := range p.pt.Coeffs {
			copy(p.pt.Coeffs[j], p.m[j])
		}
		if o.Pn {
			f.ringQ.NTTLvl(o.Pl, p.pt, p.pt)
			p.pt.IsNTT = true
		}
	} else if t.w.isBfv {
		p.bmsg = mkbfv.NewMessage(t.w.bp)
		for i := range p.bmsg.Value {
			if o.Style != "zero" {
				p.bmsg.Value[i] = int64(t.rng.Intn(int(t.w.bp.T()))) - int64(t.w.bp.T()/2)
			}
		}
		p.bpt = bfv.NewPlaintext(f.bfp)
		t.bcod.EncodeInt(p.bmsg.Value, p.bpt)
		p.m = t.w.poly(p.bpt.Value)
		p.pt = p.bpt.Value
	} else {
		p.kmsg = mkckks.NewMessage(t.w.kp)
		for i := range p.kmsg.Value {
			if o.Style != "zero" {
				p.kmsg.Value[i] = complex(t.rng.NormFloat64(), t.rng.NormFloat64())
			}
		}
		p.kpt = ckks.NewPlaintext(f.ckp, o.Pl, 1<<40)
		t.kcod.Encode(p.kpt, p.kmsg.Value, t.w.rp.LogN()-1)
		p.m = t.w.poly(p.kpt.Value)
		p.pt = p.kpt.Value
	}
	if len(p.m) == f.maxlev+1 {
		t.last = p.m
	}
	return p
}

// do performs one operation.
func (f *frun) do(t *fthread, at int, o *fop, p *prep) {
	e := &event{K: o.Op, At: at + 1, Res: "ok", Frame: []string{}, Ids: []string{}, Need: []string{}, Keys: []string{}, V: []int{}}
	before := f.state(t)
	own := map[string]bool{} // what the operation may change
	frame := func() {
		for n, x := range f.state(t) {
			if b, ok := before[n]; ok && !own[n] && b != x {
				e.Frame = append(e.Frame, n)
			}
		}
	}
	attempt := func(g func()) bool {
		defer func() {
			if r := recover(); r != nil {
				e.Res, e.Msg = "refused", fmt.Sprint(r)
			}
		}()
		g()
		return e.Res == "ok"
	}
	switch o.Op {
	case "enc":
		x := &fct{pk: o.Pk, id: party(o.Pk)}
		e.ID, e.Pl, e.Cl, e.Pn, e.Cn = x.id, o.Pl, o.Cl, o.Pn, o.Cn
		set := mkrlwe.NewIDSet()
		set.Add(x.id)
		if o.Into > 0 {
			x.ct = t.cts[o.Into-1].ct
			for i, c := range t.cts {
				if c.ct == x.ct {
					own[fmt.Sprint("ciphertext ", i+1)] = true
				}
			}
			e.Need = idsOf(x.ct)
		} else {
			e.Need = []string{x.id}
			if o.Cn {
				x.ct = mkrlwe.NewCiphertextNTT(t.w.rp, set, o.Cl)
			} else {
				x.ct = mkrlwe.NewCiphertext(t.w.rp, set, o.Cl)
			}
		}
		pk := f.pks[o.Pk]
		x.m = p.m
		pt, kmsg, bmsg, kpt, bpt := p.pt, p.kmsg, p.bmsg, p.kpt, p.bpt
		hp := hashPoly(pt)
		if attempt(func() {
			if t.w.isBfv {
				c := &mkbfv.Ciphertext{Ciphertext: x.ct}
				switch n := t.benc[o.X-1]; o.Via {
				case "rlwe":
					n.Encryptor.Encrypt(&rlwe.Plaintext{Value: pt}, pk, x.ct)
				case "msg":
					n.EncryptMsg(bmsg, pk, c)
				case "ptxt":
					n.EncryptPtxt(bpt, pk, c)
				case "new":
					c = n.EncryptMsgNew(bmsg, pk)
				}
				x.ct = c.Ciphertext
			} else {
				c := &mkckks.Ciphertext{Ciphertext: x.ct, Scale: 1 << 40}
				switch n := t.kenc[o.X-1]; o.Via {
				case "rlwe":
					n.Encryptor.Encrypt(&rlwe.Plaintext{Value: pt}, pk, x.ct)
				case "msg":
					n.EncryptMsg(kmsg, pk, c)
				case "ptxt":
					n.EncryptPtxt(kpt, pk, c)
				case "new":
					c = n.EncryptMsgNew(kmsg, pk)
				}
				x.ct = c.Ciphertext
			}
		}) {
			e.Lev, e.Ntt, e.Ids = x.ct.Level(), x.ct.Value["0"].IsNTT, idsOf(x.ct)
			c0, c1 := t.w.poly(x.ct.Value["0"]), t.w.poly(x.ct.Value[x.id])
			same := len(c0) == len(c1) && x.ct.Value[x.id].IsNTT == e.Ntt
			if same && o.Pk > 0 {
				var ok bool
				e.V, ok = t.w.small(t.w.addTo(c0, t.w.mulS(c1, f.secret[o.Pk])), x.m)
				e.Same = ok
			} else if same {
				v0, ok0 := t.w.small(c0, x.m)
				v1, ok1 := t.w.small(c1, nil)
				split := func(v []int) (u, r []int) {
					for _, x := range v {
						t := x + craft/2
						q := t / craft
						if t < 0 && t%craft != 0 {
							q--
						}
						u, r = append(u, q), append(r, x-q*craft)
					}
					return
				}
				u0, e0 := split(v0)
				u1, e1 := split(v1)
				for k := range u0 {
					ok0 = ok0 && u0[k] == u1[k]
				}
				e.V, e.Same = e0, ok0 && ok1
				sg := fmt.Sprintf(" %d", t.w.sig)
				t.w.emit(&event{K: "vec", At: at + 1, Cls: "dist", P: 5, Pool: "encryption secret", V: u1, Same: e.Same})
				t.w.emit(&event{K: "vec", At: at + 1, Cls: "gauss", Pool: "encryption noise 0" + sg, V: e0, Same: e.Same})
				t.w.emit(&event{K: "vec", At: at + 1, Cls: "gauss", Pool: "encryption noise 1" + sg, V: e1, Same: e.Same})
			}
		}
		if hashPoly(pt) != hp {
			e.Frame = append(e.Frame, "the plaintext")
		}
		frame()
		t.cts = append(t.cts, x)
		t.w.emit(e)
	case "dec":
		x := t.cts[o.C-1]
		set := mkrlwe.NewSecretKeySet()
		for _, k := range o.Keys {
			set.AddSecretKey(f.sks[k])
			e.Keys = append(e.Keys, party(k))
		}
		e.Need, e.Pl, e.Cl, e.Pn, e.Cn = idsOf(x.ct), o.Pl, x.ct.Level(), o.Pn, x.ct.Value["0"].IsNTT
		pt := ring.NewPoly(t.w.n, o.Pl+1)
		pt.IsNTT = o.Pn
		for j := range pt.Coeffs {
			for k := range pt.Coeffs[j] {
				pt.Coeffs[j][k] = t.rng.Uint64() % t.w.q[j]
			}
		}
		out := &rlwe.Plaintext{Value: pt}
		if attempt(func() { t.decs[o.X-1].Decrypt(x.ct, set, out) }) {
			e.Lev, e.Ntt = len(out.Value.Coeffs)-1, out.Value.IsNTT
			e.V, e.Same = t.w.small(t.w.poly(out.Value), x.m)
		}
		frame()
		t.w.emit(e)
	case "pdec":
		x := t.cts[o.C-1]
		cp := x.ct.CopyNew()
		e.ID, e.Need, e.Cl, e.Cn = x.id, idsOf(x.ct), x.ct.Level(), x.ct.Value["0"].IsNTT
		if attempt(func() { t.decs[o.X-1].PartialDecrypt(cp, f.sks[x.pk]) }) {
			e.Lev, e.Ntt, e.Ids = cp.Level(), cp.Value["0"].IsNTT, idsOf(cp)
			e.V, e.Same = t.w.small(t.w.poly(cp.Value["0"]), x.m)
		}
		frame()
		t.w.emit(e)
	case "pad":
		x := t.cts[o.C-1]
		set := mkrlwe.NewIDSet()
		for _, k := range o.Keys {
			set.Add(party(k))
		}
		x.ct.PadCiphertext(set)
	case "crs":
		t.w.rp.AddCRS(o.Idx)
		t.w.refs()
	default:
		panic("driver: " + o.Op)
	}
}

// fresh runs one history of encryptions and decryptions.
func fresh(c *cfg, h *fhist) *world {
	f := newRun(c, h.W)
	t := f.thread(h.Seed)
	for at := range h.Ops {
		o := &h.Ops[at]
		f.do(t, at, o, f.prepare(t, o))
	}
	return t.w
}

// together runs the second half of a history in several threads at once: they share the keys, the
// ciphertexts of the first half, and every plaintext, and have contexts of their own.
func together(c *cfg, h *fhist, n int) (ws []*world, races []string) {
	f := newRun(c, h.W)
	t := f.thread(h.Seed)
	half := len(h.Ops) / 2
	ps := make([]*prep, len(h.Ops))
	for at := range h.Ops {
		o := &h.Ops[at]
		ps[at] = f.prepare(t, o)
		if at < half {
			f.do(t, at, o, ps[at])
		}
	}
	from := racelog.Size()
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < n; i++ {
		v := f.thread(h.Seed + int64(i) + 1)
		v.w.events = nil
		v.cts = append([]*fct{}, t.cts...)
		ws = append(ws, v.w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for at := half; at < len(h.Ops); at++ {
				o := &h.Ops[at]
				// a thread writes into its own ciphertexts only
				k := o.Into
				if o.Op == "pad" {
					k = o.C
				}
				if k > 0 && k <= len(t.cts) && v.cts[k-1].ct == t.cts[k-1].ct {
					from := v.cts[k-1].ct
					to := from.CopyNew()
					for j, x := range v.cts {
						if x.ct == from {
							y := *x
							y.ct = to
							v.cts[j] = &y
						}
					}
				}
				if o.Op != "crs" {
					f.do(v, at, o, ps[at])
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	return ws, racelog.Since(from)
}
