package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/ldsec/lattigo/v2/bfv"
	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
)

const bad = 1 << 30 // recorded for a slot that is not an integer within tolerance

// Op is one operation of a program.
type Op struct {
	Op   string          `json:"op"`
	X    int             `json:"x"`
	G    int             `json:"g"`
	R    int             `json:"r"`
	K    json.RawMessage `json:"k"`
	A    int             `json:"a"`
	B    json.RawMessage `json:"b"`
	M    int64           `json:"m"`
	Ha   int             `json:"ha"`
	Hb   int             `json:"hb"`
	H    int             `json:"h"`
	I    int             `json:"i"`
	J    int             `json:"j"`
	V    int             `json:"v"`
	Pk   int             `json:"pk"`
	Pt   int             `json:"pt"`
	Sk   int             `json:"sk"`
	Sks  []int           `json:"sks"`
	Key  int             `json:"key"`
	ID   string          `json:"id"`
	IDs  []string        `json:"ids"`
	Idx  int             `json:"idx"`
	Lev  int             `json:"lev"`
	Re   int64           `json:"re"`
	Im   int64           `json:"im"`
	Den  int64           `json:"den"`
	Ty   string          `json:"ty"`
	Dist string          `json:"dist"`
	Val  json.RawMessage `json:"val"`
	Len  int             `json:"len"`
	Cent bool            `json:"cent"`
	Wit  []int           `json:"wit"`
	Want string          `json:"want"`
	Far  int             `json:"far"`
}

func (o *Op) kint() int    { var k int; json.Unmarshal(o.K, &k); return k }

// amount is k, moved away from zero by 2^|far| (a multiple of the rotation period, so that the model may ignore it)
func (o *Op) amount(k int) int {
	switch {
	case o.Far > 0:
		return k + 1<<uint(o.Far)
	case o.Far < 0:
		return k - 1<<uint(-o.Far)
	}
	return k
}
func (o *Op) kstr() string { var k string; json.Unmarshal(o.K, &k); return k }
func (o *Op) bint() int    { var k int; json.Unmarshal(o.B, &k); return k }

// Obs is what was observed of one operation.
type Obs struct {
	Res   string      `json:"res"`
	Msg   string      `json:"msg"`
	IDs   []string    `json:"ids"`
	Lev   int         `json:"lev"`
	SM    int64       `json:"sm"`
	SB    int         `json:"sb"`
	Val   interface{} `json:"val"`
	Frame []string    `json:"frame"`
	Db    int         `json:"db"`
	Regs  interface{} `json:"regs"`
	Uid   int         `json:"uid"`
	Tags  interface{} `json:"tags"`
	Sets  interface{} `json:"sets"`
	Eq    bool        `json:"eq"`
	Nz    int         `json:"nz"` // size of the noise in bits: the phase minus the encoding of the rounded slots
	Slip  int         `json:"slip"` // rescaling: how far the result is from the exact quotient, in thousandths
	Races []string    `json:"races,omitempty"`
}

type refused struct{ why string }

func stepRand() *rand.Rand { return rand.New(rand.NewSource(12345)) }

// ---------------------------------------------------------------- messages

func (w *World) message(o *Op) *Msg {
	c := w.cfg
	if c.ckks() {
		var v [][2]float64
		must(json.Unmarshal(o.Val, &v))
		m := &mkckks.Message{Value: make([]complex128, o.Len)}
		for i := 0; i < o.Len; i++ {
			m.Value[i] = complex(v[i][0], v[i][1])
		}
		return &Msg{c: m}
	}
	var v []int64
	must(json.Unmarshal(o.Val, &v))
	t := int64(c.T)
	conv := func(x int64) int64 {
		if c.TlaT == 0 { // centred integers: half of them are given as representatives in [0,t)
			if !o.Cent && x < 0 {
				x += t
			}
			return x
		}
		if o.Cent && x > t/2 {
			return x - t
		}
		return x
	}
	if c.Rep == "full" {
		m := &mkbfv.Message{Value: make([]int64, o.Len)}
		for i := range m.Value {
			m.Value[i] = conv(v[i])
		}
		return &Msg{b: m}
	}
	m := mkbfv.NewMessage(w.bp)
	for r := 0; r < c.Rows; r++ {
		for j := 0; j < c.Slots; j++ {
			k := j % c.N
			if c.Rep == "blk" {
				k = j / (c.Slots / c.N)
			}
			m.Value[r*c.Slots+j] = conv(v[r*c.N+k])
		}
	}
	return &Msg{b: m}
}

// slots turns a decrypted message into the specification's representation.
func (w *World) slots(m *Msg) interface{} {
	c := w.cfg
	if m == nil {
		return []int{}
	}
	if c.ckks() {
		out := make([][2]int64, 0, len(m.c.Value))
		for _, z := range m.c.Value {
			out = append(out, [2]int64{near(real(z)), near(imag(z))})
		}
		return out
	}
	t := int64(c.T)
	canon := func(x int64) int64 {
		x = ((x % t) + t) % t
		if c.TlaT == 0 {
			if x > t/2 {
				x -= t
			}
			if x > 1<<28 || x < -(1<<28) {
				return bad
			}
		}
		return x
	}
	out := make([]int64, c.Rows*c.N)
	if len(m.b.Value) != c.Rows*c.Slots {
		return []int64{int64(len(m.b.Value))}
	}
	seen := make([]bool, len(out))
	for r := 0; r < c.Rows; r++ {
		for j := 0; j < c.Slots; j++ {
			k := j % c.N
			if c.Rep == "blk" {
				k = j / (c.Slots / c.N)
			}
			x := canon(m.b.Value[r*c.Slots+j])
			if i := r*c.N + k; !seen[i] {
				seen[i], out[i] = true, x
			} else if out[i] != x {
				out[i] = bad
			}
		}
	}
	return out
}

func near(x float64) int64 {
	r := math.Round(x)
	if math.IsNaN(x) || math.IsInf(x, 0) || math.Abs(r) > 1<<28 || math.Abs(x-r) > 0.05 {
		return bad
	}
	return int64(r)
}

func must(err error) {
	if err != nil {
		panic("driver: " + err.Error())
	}
}

// ---------------------------------------------------------------- observation

// decryptFresh decrypts with a fresh decryptor and the given secret keys.
func (w *World) decryptFresh(x *Ct, sks []int) (m *Msg) {
	defer func() {
		if recover() != nil {
			m = nil
		}
	}()
	set := mkrlwe.NewSecretKeySet()
	for _, u := range sks {
		set.AddSecretKey(w.keys[u-1].sk)
	}
	y := x.clone()
	if w.cfg.ckks() {
		return &Msg{c: mkckks.NewDecryptor(w.cp).Decrypt(y.c, set)}
	}
	return &Msg{b: mkbfv.NewDecryptor(w.bp).Decrypt(y.b, set)}
}

func (w *World) observe(x *Ct, wit []int, ob *Obs) {
	in := x.in()
	ids := []string{}
	for _, id := range sortedIDs(in.Value) {
		if id != "0" {
			ids = append(ids, id)
		}
	}
	ob.IDs = ids
	lev := -1
	for _, p := range in.Value {
		if lev == -1 {
			lev = len(p.Coeffs) - 1
		}
		if len(p.Coeffs)-1 != lev {
			lev = -2 // components of different levels
			break
		}
	}
	ob.Lev = lev
	if x.c != nil {
		ob.SM, ob.SB = scaleOf(x.c.Scale)
	} else {
		ob.SM, ob.SB = 1<<14, -14
	}
	m := w.decryptFresh(x, wit)
	ob.Val = w.slots(m)
	ob.Nz = w.noise(x, m, wit)
}

// noise returns the number of bits of the phase minus the encoding of the rounded slots, -1 if there is none.
func (w *World) noise(x *Ct, m *Msg, wit []int) (n int) {
	defer func() {
		if recover() != nil {
			n = -1
		}
	}()
	if m == nil {
		return -1
	}
	ph := w.phase(x, wit)
	if ph == nil {
		return -1
	}
	ringQ := w.rp.RingQ()
	lev := len(ph.Coeffs) - 1
	co := make([]*big.Int, ringQ.N)
	for i := range co {
		co[i] = new(big.Int)
	}
	if w.cfg.ckks() {
		// the encoder misrounds coefficients of 2^64 exactly: the better of two ways counts
		n = 1 << 30
		for _, f := range []float64{1, 2} {
			v := make([]complex128, len(m.c.Value))
			for i, z := range m.c.Value {
				v[i] = complex(math.Round(real(z))/f, math.Round(imag(z))/f)
			}
			pt := ckks.NewPlaintext(w.ps.ck, lev, x.c.Scale)
			w.cenc.Encode(pt, v, w.cfg.LogSlots)
			d := ph.CopyNew()
			ringQ.SubLvl(lev, d, pt.Value, d)
			if f == 2 {
				ringQ.SubLvl(lev, d, pt.Value, d)
			}
			ringQ.PolyToBigintCenteredLvl(lev, d, co)
			b := maxBits(co)
			if b < n {
				n = b
			}
		}
		return n
	} else { // t*phase = t*noise modulo Q
		t := new(big.Int).SetUint64(w.cfg.T)
		q := big.NewInt(1)
		for _, p := range w.ps.q[:lev+1] {
			q.Mul(q, new(big.Int).SetUint64(p))
		}
		half := new(big.Int).Rsh(q, 1)
		ringQ.PolyToBigintCenteredLvl(lev, ph, co)
		for _, c := range co {
			c.Mul(c, t).Mod(c, q)
			if c.Cmp(half) > 0 {
				c.Sub(c, q)
			}
			c.Quo(c, t)
		}
	}
	return maxBits(co)
}

// slip measures a division by the last primes: the largest distance of a coefficient of out from the
// quotient of that of in, in thousandths.
func (w *World) slip(in, out *Ct) int {
	ringQ := w.rp.RingQ()
	coefs := func(p *ring.Poly) []*big.Int {
		q := clonePoly(p)
		lev := len(q.Coeffs) - 1
		if p.IsNTT {
			ringQ.InvNTTLvl(lev, q, q)
		}
		co := make([]*big.Int, ringQ.N)
		for i := range co {
			co[i] = new(big.Int)
		}
		ringQ.PolyToBigintLvl(lev, q, co)
		return co
	}
	worst := 0
	for id, p := range in.in().Value {
		r := out.in().Value[id]
		if r == nil || len(r.Coeffs) > len(p.Coeffs) || len(r.Coeffs) == 0 {
			return 1000000
		}
		d, m := big.NewInt(1), big.NewInt(1)
		for j := range p.Coeffs {
			m.Mul(m, new(big.Int).SetUint64(w.ps.q[j]))
			if j >= len(r.Coeffs) {
				d.Mul(d, new(big.Int).SetUint64(w.ps.q[j]))
			}
		}
		half := new(big.Int).Rsh(m, 1)
		x, y := coefs(p), coefs(r)
		for k := range x {
			e := y[k].Mul(y[k], d)
			e.Sub(e, x[k]).Mod(e, m)
			if e.Cmp(half) > 0 {
				e.Sub(e, m)
			}
			e.Abs(e).Mul(e, big.NewInt(1000)).Quo(e, d)
			if !e.IsInt64() || e.Int64() > 1000000 {
				return 1000000
			}
			if int(e.Int64()) > worst {
				worst = int(e.Int64())
			}
		}
	}
	return worst
}

func maxBits(co []*big.Int) (n int) {
	for _, c := range co {
		if b := c.BitLen(); b > n {
			n = b
		}
	}
	return n
}

// scaleOf returns m*2^b with 2^14 <= m < 2^15 (0, 0 for zero).
func scaleOf(s float64) (int64, int) {
	if s == 0 || math.IsNaN(s) || math.IsInf(s, 0) {
		return 0, 0
	}
	f, e := math.Frexp(s) // f in [0.5,1)
	return int64(math.Round(f * 32768)), e - 15
}

func (w *World) dumpRegs() interface{} {
	type ent struct {
		K   string `json:"k"`
		R   int    `json:"r"`
		ID  string `json:"id"`
		Idx int    `json:"idx"`
		Key int    `json:"key"`
	}
	out := []ent{}
	get := func(k string, r int, id string, idx int) {
		defer func() { recover() }()
		key := w.regs[r].get(k, id, idx)
		u := w.uid(key)
		out = append(out, ent{k, r + 1, id, idx, u})
	}
	for r := range w.regs {
		for _, id := range w.names() {
			for _, k := range []string{"sk", "pk", "rlk", "cjk"} {
				get(k, r, id, 0)
			}
			for idx := 1; idx < w.cfg.Half; idx++ {
				get("rot", r, id, idx)
			}
		}
	}
	return out
}

func (w *World) dumpSets() interface{} {
	type sd struct {
		Has  []string `json:"has"`
		Size int      `json:"size"`
	}
	out := []sd{}
	for _, s := range w.sets {
		d := sd{Has: []string{}, Size: s.Size()}
		for _, id := range append(w.names(), "0", "nobody") {
			if s.Has(id) {
				d.Has = append(d.Has, id)
			}
		}
		out = append(out, d)
	}
	return out
}

// ---------------------------------------------------------------- differences

// diffBits compares two outcomes; 0: identical, n: the phases differ by less than 2^n, 9999: different.
func (w *World) diffBits(x, y *Ct, wit []int) (d int) {
	if x == nil && y == nil {
		return 0
	}
	if x == nil || y == nil {
		return 9999
	}
	if x.fp() == y.fp() {
		return 0
	}
	defer func() {
		if recover() != nil {
			d = 9999
		}
	}()
	a, b := x.in(), y.in()
	ia, ib := sortedIDs(a.Value), sortedIDs(b.Value)
	if strings.Join(ia, "\x00") != strings.Join(ib, "\x00") || len(a.Value["0"].Coeffs) != len(b.Value["0"].Coeffs) {
		return 9999
	}
	if x.c != nil && math.Abs(x.c.Scale-y.c.Scale) > 1e-9*math.Abs(x.c.Scale) {
		return 9999
	}
	pa, pb := w.phase(x, wit), w.phase(y, wit)
	if pa == nil || pb == nil {
		return 9999
	}
	ringQ := w.rp.RingQ()
	lev := len(pa.Coeffs) - 1
	z := ringQ.NewPolyLvl(lev)
	ringQ.SubLvl(lev, pa, pb, z)
	co := make([]*big.Int, ringQ.N)
	for i := range co {
		co[i] = new(big.Int)
	}
	ringQ.PolyToBigintCenteredLvl(lev, z, co)
	for _, c := range co {
		if n := c.BitLen(); n > d {
			d = n
		}
	}
	return d
}

// phase computes ct_0 + sum ct_i s_i, without the library's decryptor.
func (w *World) phase(x *Ct, sks []int) *ring.Poly {
	in := x.in()
	ringQ := w.rp.RingQ()
	lev := len(in.Value["0"].Coeffs) - 1
	acc := clonePoly(in.Value["0"])
	for id, p := range in.Value {
		if id == "0" {
			continue
		}
		var sk *mkrlwe.SecretKey
		for _, u := range sks {
			if w.keys[u-1].id == id {
				sk = w.keys[u-1].sk
			}
		}
		if sk == nil {
			return nil
		}
		t := clonePoly(p)
		ringQ.NTTLvl(lev, t, t)
		ringQ.MulCoeffsMontgomeryLvl(lev, t, sk.Value.Q, t)
		ringQ.InvNTTLvl(lev, t, t)
		ringQ.AddLvl(lev, acc, t, acc)
	}
	return acc
}

// ---------------------------------------------------------------- execution

func (w *World) junk(x *Ct) { // fill the visible coefficients with something else
	rnd := stepRand()
	for _, p := range x.in().Value {
		for i := range p.Coeffs {
			q := w.ps.q[i]
			for j := range p.Coeffs[i] {
				p.Coeffs[i][j] = rnd.Uint64() % q
			}
		}
	}
}

func (w *World) junkQP(p rlwe.PolyQP) {
	rnd := stepRand()
	for _, q := range []*ring.Poly{p.Q, p.P} {
		for i := range q.Coeffs {
			for j := range q.Coeffs[i] {
				q.Coeffs[i][j] = rnd.Uint64() >> 10
			}
		}
	}
}

func idset(ids []string) *mkrlwe.IDSet {
	s := mkrlwe.NewIDSet()
	for _, id := range ids {
		s.Add(id)
	}
	return s
}

// outFor returns an empty result ciphertext with the operand's shape.
func (w *World) outFor(ids *mkrlwe.IDSet, lev int) *Ct {
	if w.cfg.ckks() {
		return &Ct{c: mkckks.NewCiphertext(w.cp, ids, lev, 0)}
	}
	return &Ct{b: mkbfv.NewCiphertext(w.bp, ids)}
}

func (w *World) constant(o *Op) interface{} {
	re, im := float64(o.Re)/float64(o.Den), float64(o.Im)/float64(o.Den)
	switch o.Ty {
	case "int":
		return int(o.Re)
	case "int64":
		return o.Re
	case "uint64":
		return uint64(o.Re)
	case "float64":
		return re
	}
	return complex(re, im)
}

func (w *World) genSk(o *Op) *Key {
	kg := w.kg[o.G-1]
	var sk *mkrlwe.SecretKey
	switch o.Dist {
	case "sparse":
		sk = kg.GenSecretKeySparse(w.rp.N()/4, o.ID)
	case "gauss":
		sk = kg.GenSecretKeyGaussian(o.ID)
	case "dist":
		sk = kg.GenSecretKeyWithDistrib(1.0/3, o.ID)
	default:
		sk = kg.GenSecretKey(o.ID)
	}
	return &Key{kind: "sk", id: o.ID, sk: sk}
}

func (w *World) genRlk(g int, sk *mkrlwe.SecretKey) *Key {
	r := w.kg[g-1].GenSecretKey(sk.ID)
	k := &Key{kind: "rlk", id: sk.ID}
	if w.cfg.ckks() {
		k.rlk = w.kg[g-1].GenRelinearizationKey(sk, r)
	} else {
		k.brlk = w.bkg[g-1].GenRelinearizationKey(sk, r)
	}
	return k
}

// eval performs an operation of the evaluator on explicitly given operands:
// used for the long-lived contexts and again, with fresh ones, for comparison.
func (w *World) eval(o *Op, x *Ctx, r *Regs, a, b *Ct, ha, hb *mkrlwe.HoistedCiphertext) (res *Ct) {
	c := w.cfg
	switch o.Op {
	case "add":
		if c.ckks() {
			return &Ct{c: x.ceva.AddNew(a.c, b.c)}
		}
		return &Ct{b: x.beva.AddNew(a.b, b.b)}
	case "sub":
		if c.ckks() {
			return &Ct{c: x.ceva.SubNew(a.c, b.c)}
		}
		return &Ct{b: x.beva.SubNew(a.b, b.b)}
	case "mul":
		if c.ckks() {
			return &Ct{c: x.ceva.MulRelinNew(a.c, b.c, r.rlk)}
		}
		return &Ct{b: x.beva.MulRelinNew(a.b, b.b, r.brlk)}
	case "mulh":
		return &Ct{c: x.ceva.MulRelinHoistedNew(a.c, b.c, ha, hb, r.rlk)}
	case "mulks":
		return w.mulks(o, x, r, a, b)
	case "rot":
		if c.ckks() {
			return &Ct{c: x.ceva.RotateNew(a.c, o.amount(o.kint()), r.rot)}
		}
		return &Ct{b: x.beva.RotateNew(a.b, o.amount(o.kint()), r.rot)}
	case "roth":
		if c.ckks() {
			return &Ct{c: x.ceva.RotateHoistedNew(a.c, o.amount(o.kint()), ha, r.rot)}
		}
		k := ((o.kint() % c.Half) + c.Half) % c.Half
		if k == 0 {
			return &Ct{b: a.b.CopyNew()}
		}
		out := w.outFor(a.in().IDSet(), 0)
		x.bks.RotateHoisted(a.in(), k, ha, r.rot, out.in())
		return out
	case "conj":
		if c.ckks() {
			return &Ct{c: x.ceva.ConjugateNew(a.c, r.cjk)}
		}
		return &Ct{b: x.beva.ConjugateNew(a.b, r.cjk)}
	case "drop":
		return &Ct{c: x.ceva.DropLevelNew(a.c, o.kint())}
	case "dropin":
		x.ceva.DropLevel(a.c, o.kint())
		return a
	case "resc", "rescin", "rescto":
		t := math.Ldexp(float64(o.M), o.bint())
		if o.Op == "resc" {
			z, err := x.ceva.RescaleNew(a.c, t)
			if err != nil {
				panic(refused{err.Error()})
			}
			return &Ct{c: z}
		}
		out := a
		if o.Op == "rescto" {
			out = &Ct{c: mkckks.NewCiphertext(w.cp, a.in().IDSet(), a.in().Level(), 3)}
			w.junk(out)
		}
		if err := x.ceva.Rescale(a.c, t, out.c); err != nil {
			panic(refused{err.Error()})
		}
		return out
	case "cmul", "cmulin":
		out := a
		if o.Op == "cmul" {
			out = &Ct{c: mkckks.NewCiphertext(w.cp, a.in().IDSet(), a.in().Level(), 3)}
			w.junk(out)
		}
		x.ceva.MultByConst(a.c, w.constant(o), out.c)
		return out
	case "pmul":
		return &Ct{c: x.ceva.MulPtxtNew(a.c, w.pt[o.Pt-1].c)}
	}
	panic("driver: eval " + o.Op)
}

// mulks: the key-switching primitive, with each operand plain or hoisted on the spot.
func (w *World) mulks(o *Op, x *Ctx, r *Regs, a, b *Ct) *Ct {
	ids := a.in().IDSet().Union(b.in().IDSet())
	if w.cfg.ckks() {
		lev := a.in().Level()
		if l := b.in().Level(); l < lev {
			lev = l
		}
		out := &Ct{c: mkckks.NewCiphertext(w.cp, ids, lev, a.c.Scale*b.c.Scale)}
		if o.Ha == 0 && o.Hb == 0 {
			x.cks.MulAndRelin(a.in(), b.in(), r.rlk, out.in())
			return out
		}
		hoist := func(c *Ct, on int) *mkrlwe.HoistedCiphertext {
			if on == 0 {
				return nil
			}
			h := mkrlwe.NewHoistedCiphertext()
			for id := range c.in().IDSet().Value {
				h.Value[id] = mkrlwe.NewSwitchingKey(w.rp)
				x.cks.Decompose(c.in().Level(), c.in().Value[id], h.Value[id])
			}
			return h
		}
		ha, hb := hoist(a, o.Ha), hoist(b, o.Hb)
		x.cks.MulAndRelinHoisted(a.in(), b.in(), ha, hb, r.rlk, out.in())
		return out
	}
	out := &Ct{b: mkbfv.NewCiphertext(w.bp, ids)}
	aR := &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}
	bR := &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}
	for id, p := range a.in().Value {
		aR.Value[id] = w.bp.RingR().NewPoly()
		x.bcv.ModUpQtoR(p, aR.Value[id])
	}
	for id, p := range b.in().Value {
		bR.Value[id] = w.bp.RingR().NewPoly()
		x.bcv.Rescale(p, bR.Value[id])
	}
	if o.Ha == 0 && o.Hb == 0 {
		x.bks.MulAndRelinBFV(aR, bR, r.brlk, out.in())
		return out
	}
	hoist := func(c *Ct, cr *mkrlwe.Ciphertext, on int) (h1, h2 *mkrlwe.HoistedCiphertext) {
		if on == 0 {
			return nil, nil
		}
		h1, h2 = mkrlwe.NewHoistedCiphertext(), mkrlwe.NewHoistedCiphertext()
		for id := range c.in().IDSet().Value {
			h1.Value[id] = mkrlwe.NewSwitchingKey(w.rp)
			h2.Value[id] = mkrlwe.NewSwitchingKey(w.rp)
			x.bks.DecomposeBFV(w.bp.MaxLevel(), cr.Value[id], h1.Value[id], h2.Value[id])
		}
		return
	}
	a1, a2 := hoist(a, aR, o.Ha)
	b1, b2 := hoist(b, bR, o.Hb)
	x.bks.MulAndRelinBFVHoisted(aR, bR, a1, a2, b1, b2, r.brlk, out.in())
	return out
}

func (w *World) hoistForm(x *Ctx, a *Ct) *mkrlwe.HoistedCiphertext {
	if w.cfg.ckks() {
		return x.ceva.HoistedForm(a.c)
	}
	h := mkrlwe.NewHoistedCiphertext()
	for id := range a.in().IDSet().Value {
		h.Value[id] = mkrlwe.NewSwitchingKey(w.rp)
		x.bks.Decompose(a.in().Level(), a.in().Value[id], h.Value[id])
	}
	return h
}

var evals = map[string]bool{"add": true, "sub": true, "mul": true, "mulh": true, "mulks": true, "rot": true, "roth": true,
	"conj": true, "drop": true, "dropin": true, "resc": true, "rescin": true, "rescto": true, "cmul": true, "cmulin": true, "pmul": true}
var inplace = map[string]bool{"dropin": true, "rescin": true, "cmulin": true, "encinto": true, "pad": true, "pdec": true, "scribble": true, "setscale": true}
var regops = map[string]bool{"reg": true, "del": true, "get": true, "gendef": true, "join": true}
var setops = map[string]bool{"snew": true, "sof": true, "sadd": true, "srem": true, "scopy": true, "sunion": true, "sinter": true}

func (w *World) arg(i int) *Ct {
	if i <= 0 || i > len(w.ct) {
		return nil
	}
	return w.ct[i-1]
}

func (w *World) hoisted(o *Op, i int) *mkrlwe.HoistedCiphertext {
	if i <= 0 || o.Op == "mulks" {
		return nil
	}
	return w.hst[i-1]
}

// apply executes one operation, appending what it creates to the world.
func (w *World) apply(o *Op, ob *Obs) (target *Ct) {
	c := w.cfg
	x, r := w.ctx[0], w.regs[0]
	if o.X > 0 {
		x = w.ctx[o.X-1]
	}
	if o.R > 0 {
		r = w.regs[o.R-1]
	}
	a := w.arg(o.A)
	addKey := func(k *Key) {
		w.keys = append(w.keys, k)
	}
	addCt := func(z *Ct) *Ct {
		w.ct = append(w.ct, z)
		return z
	}
	defaults := func(sk *mkrlwe.SecretKey, set *mkrlwe.RotationKeySet) {
		w.kg[o.G-1].GenDefaultRotationKeys(sk, set)
	}
	collect := func(id string, set *mkrlwe.RotationKeySet) {
		var idx []int
		for i := range set.Value[id] {
			idx = append(idx, int(i))
		}
		sort.Ints(idx)
		for _, i := range idx {
			addKey(&Key{kind: "rot", id: id, idx: i, rot: set.Value[id][uint(i)]})
		}
	}
	if evals[o.Op] {
		z := w.eval(o, x, r, a, w.arg(o.bint()), w.hoisted(o, max(o.H, o.Ha)), w.hoisted(o, o.Hb))
		if inplace[o.Op] {
			return a
		}
		return addCt(z)
	}
	switch o.Op {
	case "gensk":
		addKey(w.genSk(o))
	case "alias":
		k := w.keys[o.Sk-1].sk.CopyNew()
		k.ID = o.ID
		addKey(&Key{kind: "sk", id: o.ID, sk: k})
	case "genpk":
		sk := w.keys[o.Sk-1]
		addKey(&Key{kind: "pk", id: sk.id, pk: w.kg[o.G-1].GenPublicKey(sk.sk)})
	case "genrlk":
		addKey(w.genRlk(o.G, w.keys[o.Sk-1].sk))
	case "gencjk":
		sk := w.keys[o.Sk-1]
		addKey(&Key{kind: "cjk", id: sk.id, cjk: w.kg[o.G-1].GenConjugationKey(sk.sk)})
	case "genrot":
		sk := w.keys[o.Sk-1]
		addKey(&Key{kind: "rot", id: sk.id, rot: w.kg[o.G-1].GenRotationKey(o.amount(o.Idx), sk.sk)})
	case "gendef":
		// into an empty registry first, to see which keys are generated; then as the library does it
		sk := w.keys[o.Sk-1]
		before := map[uint]*mkrlwe.RotationKey{}
		for i, k := range r.rot.Value[sk.id] {
			before[i] = k
		}
		defaults(sk.sk, r.rot)
		fresh := mkrlwe.NewRotationKeySet()
		for i, k := range r.rot.Value[sk.id] {
			if before[i] != k {
				if fresh.Value[sk.id] == nil {
					fresh.Value[sk.id] = map[uint]*mkrlwe.RotationKey{}
				}
				fresh.Value[sk.id][i] = k
			}
		}
		collect(sk.id, fresh)
	case "keycopy": // a copy equals its source, and overwriting it changes nothing else
		k := w.keys[o.Key-1]
		z := &Key{kind: k.kind, id: k.id}
		if k.sk != nil {
			z.sk = k.sk.CopyNew()
		} else {
			z.pk = k.pk.CopyNew()
		}
		ob.Eq = z.fp() == k.fp()
		if z.sk != nil {
			w.junkQP(z.sk.Value)
		} else {
			w.junkQP(z.pk.Value[0])
			w.junkQP(z.pk.Value[1])
		}
	case "join":
		var sk, pk *Key
		switch o.Dist {
		case "pair", "pairsp":
			var s *mkrlwe.SecretKey
			var p *mkrlwe.PublicKey
			if o.Dist == "pair" {
				s, p = w.kg[o.G-1].GenKeyPair(o.ID)
			} else {
				s, p = w.kg[o.G-1].GenKeyPairSparse(w.rp.N()/4, o.ID)
			}
			sk, pk = &Key{kind: "sk", id: o.ID, sk: s}, &Key{kind: "pk", id: o.ID, pk: p}
		default:
			sk = w.genSk(o)
			pk = &Key{kind: "pk", id: o.ID, pk: w.kg[o.G-1].GenPublicKey(sk.sk)}
		}
		rlk := w.genRlk(o.G, sk.sk)
		cjk := &Key{kind: "cjk", id: o.ID, cjk: w.kg[o.G-1].GenConjugationKey(sk.sk)}
		set := mkrlwe.NewRotationKeySet()
		defaults(sk.sk, set)
		for _, k := range []*Key{sk, pk, rlk, cjk} {
			addKey(k)
			w.regs[0].add(k)
		}
		n := len(w.keys)
		collect(o.ID, set)
		for _, k := range w.keys[n:] {
			w.regs[0].add(k)
		}
	case "reg":
		r.add(w.keys[o.Key-1])
	case "del":
		r.del(o.kstr(), o.ID, o.Idx)
	case "get":
		ob.Uid = w.uid(r.get(o.kstr(), o.ID, o.Idx))
	case "addcrs":
		if c.ckks() {
			w.cp.AddCRS(o.Idx)
		} else {
			w.bp.AddCRS(o.Idx)
		}
	case "encode":
		m := w.message(o)
		w.msgs = append(w.msgs, m)
		if c.ckks() {
			scale := math.Ldexp(float64(o.M), o.bint())
			if o.Lev == c.MaxLev && o.M == 1 && o.bint() == c.Sb {
				w.pt = append(w.pt, &Pt{c: x.cenc.EncodeMsgNew(m.c)})
			} else {
				p := ckks.NewPlaintext(w.ps.ck, o.Lev, scale)
				w.cenc.Encode(p, m.c.Value, c.LogSlots)
				w.pt = append(w.pt, &Pt{c: p})
			}
		} else {
			p := bfv.NewPlaintext(w.bpar)
			w.benc.EncodeInt(m.b.Value, p)
			w.pt = append(w.pt, &Pt{b: p})
		}
	case "reenc": // another message into an existing plaintext
		m := w.message(o)
		w.msgs = append(w.msgs, m)
		if p := w.pt[o.Pt-1]; c.ckks() {
			p.c.SetScalingFactor(math.Ldexp(float64(o.M), o.bint()))
			w.cenc.Encode(p.c, m.c.Value, c.LogSlots)
		} else {
			w.benc.EncodeInt(m.b.Value, p.b)
		}
	case "enc":
		m := w.message(o)
		w.msgs = append(w.msgs, m)
		pk := w.keys[o.Pk-1].pk
		if c.ckks() {
			return addCt(&Ct{c: x.cenc.EncryptMsgNew(m.c, pk)})
		}
		return addCt(&Ct{b: x.benc.EncryptMsgNew(m.b, pk)})
	case "encpt":
		pk := w.keys[o.Pk-1]
		if c.ckks() {
			z := mkckks.NewCiphertext(w.cp, idset([]string{pk.id}), o.Lev, 7)
			x.cenc.EncryptPtxt(w.pt[o.Pt-1].c, pk.pk, z)
			return addCt(&Ct{c: z})
		}
		z := mkbfv.NewCiphertext(w.bp, idset([]string{pk.id}))
		x.benc.EncryptPtxt(w.pt[o.Pt-1].b, pk.pk, z)
		return addCt(&Ct{b: z})
	case "encinto":
		m := w.message(o)
		w.msgs = append(w.msgs, m)
		pk := w.keys[o.Pk-1].pk
		if c.ckks() {
			x.cenc.EncryptMsg(m.c, pk, a.c)
		} else {
			x.benc.EncryptMsg(m.b, pk, a.b)
		}
		return a
	case "hoist":
		w.hst = append(w.hst, w.hoistForm(x, a))
	case "setscale":
		a.c.SetScalingFactor(0)
		return a
	case "copy":
		if o.V == 0 {
			if c.ckks() {
				return addCt(&Ct{c: a.c.CopyNew()})
			}
			return addCt(&Ct{b: a.b.CopyNew()})
		}
		z := w.outFor(a.in().IDSet(), a.in().Level())
		if c.ckks() {
			z.c.SetScalingFactor(a.c.ScalingFactor())
		}
		w.junk(z)
		z.in().Copy(a.in())
		return addCt(z)
	case "pad":
		a.in().PadCiphertext(idset(o.IDs))
		return a
	case "zero":
		z := w.outFor(idset(o.IDs), o.Lev)
		if c.ckks() {
			z.c.SetScalingFactor(w.cp.Scale())
		}
		return addCt(z)
	case "scribble":
		w.junk(a)
		return a
	case "pdec":
		sk := w.keys[o.Sk-1].sk
		if c.ckks() {
			x.cdec.PartialDecrypt(a.c, sk)
		} else {
			x.bdec.PartialDecrypt(a.b, sk)
		}
		return a
	case "dec":
		set := mkrlwe.NewSecretKeySet()
		for _, u := range o.Sks {
			set.AddSecretKey(w.keys[u-1].sk)
		}
		n := len(set.Value)
		var m *Msg
		defer func() {
			if len(set.Value) != n {
				ob.Frame = append(ob.Frame, "skset")
			}
		}()
		if c.ckks() {
			m = &Msg{c: x.cdec.Decrypt(a.c, set)}
		} else {
			m = &Msg{b: x.bdec.Decrypt(a.b, set)}
		}
		w.msgs = append(w.msgs, m)
		ob.Val = w.slots(m)
	case "snew":
		w.sets = append(w.sets, mkrlwe.NewIDSet())
	case "sof":
		w.sets = append(w.sets, a.in().IDSet())
	case "sadd":
		w.sets[o.I-1].Add(o.ID)
	case "srem":
		w.sets[o.I-1].Remove(o.ID)
	case "scopy":
		w.sets = append(w.sets, w.sets[o.I-1].CopyNew())
	case "sunion":
		w.sets = append(w.sets, w.sets[o.I-1].Union(w.sets[o.J-1]))
	case "sinter":
		w.sets = append(w.sets, w.sets[o.I-1].Intersection(w.sets[o.J-1]))
	default:
		panic("driver: unknown operation " + o.Op)
	}
	return nil
}

// guarded runs f, turning a panic into a refusal.
func guarded(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			if r, ok := e.(refused); ok {
				msg = "error: " + r.why
				return
			}
			msg = fmt.Sprint("panic: ", e)
			if os.Getenv("STACK") != "" {
				fmt.Fprintln(os.Stderr, string(debug.Stack()))
			}
			if strings.Contains(msg, "driver:") {
				panic(e)
			}
		}
	}()
	f()
	return ""
}

// step executes one operation and records everything observable about it.
func (w *World) step(o *Op, before map[string]uint64) (*Obs, map[string]uint64) {
	ob := &Obs{IDs: []string{}, Val: []int{}, Frame: []string{}, Regs: []int{}, Tags: []int{}, Sets: []int{}, Eq: true}
	var preA, preB *Ct
	a := w.arg(o.A)
	if evals[o.Op] || o.Op == "pad" || o.Op == "pdec" {
		preA = a.clone()
		if b := w.arg(o.bint()); b != nil {
			if b == a {
				preB = preA
			} else {
				preB = b.clone()
			}
		}
	}
	nk := len(w.keys)
	var tgt *Ct
	if msg := guarded(func() { tgt = w.apply(o, ob) }); msg != "" {
		ob.Res, ob.Msg = "refused", msg
		tgt = nil
	} else {
		ob.Res = "ok"
	}
	// what changed that should not have?
	after := w.snapshot()
	for k, f := range before {
		g, in := after[k]
		if in && f == g {
			continue
		}
		ok := ob.Res == "ok" && (inplace[o.Op] && k == fmt.Sprintf("ct%d", o.A) ||
			regops[o.Op] && o.Op != "get" && k == "reg" ||
			o.Op == "reenc" && k == fmt.Sprintf("pt%d", o.Pt) ||
			o.Op == "addcrs" && k == fmt.Sprintf("crs%d", o.Idx) ||
			(o.Op == "sadd" || o.Op == "srem") && k == fmt.Sprintf("set%d", o.I))
		if !ok {
			ob.Frame = append(ob.Frame, k)
		}
	}
	for k := range after { // nothing but common references may appear by itself
		if _, in := before[k]; !in && strings.HasPrefix(k, "crs") && !(o.Op == "addcrs" && k == fmt.Sprintf("crs%d", o.Idx)) {
			ob.Frame = append(ob.Frame, k)
		}
	}
	ob.Frame = append(ob.Frame, w.shared()...)
	sort.Strings(ob.Frame)
	// the result
	if tgt != nil {
		w.observe(tgt, o.Wit, ob)
	}
	if tgt != nil && (o.Op == "resc" || o.Op == "rescin" || o.Op == "rescto") {
		ob.Slip = w.slip(preA, tgt)
	}
	// the same with contexts that have no history
	if evals[o.Op] {
		r := w.regs[0]
		if o.R > 0 {
			r = w.regs[o.R-1]
		}
		var z *Ct
		msg := guarded(func() {
			v := w.pristine()
			z = v.eval(o, v.newEval(), v.freshRegs(r), preA, preB, w.hoisted(o, max(o.H, o.Ha)), w.hoisted(o, o.Hb))
		})
		if (msg == "") != (ob.Res == "ok") {
			ob.Db = 9999
		} else if ob.Res == "ok" {
			ob.Db = w.diffBits(tgt, z, o.Wit)
		}
	}
	if o.Op == "dec" {
		m := w.decryptFresh(a, o.Sks)
		if (m != nil) != (ob.Res == "ok") {
			ob.Db = 9999
		} else if m != nil {
			ob.Db = msgDiff(m, w.msgs[len(w.msgs)-1])
		}
	}
	if o.Op == "pdec" {
		msg := guarded(func() {
			if w.cfg.ckks() {
				mkckks.NewDecryptor(w.cp).PartialDecrypt(preA.c, w.keys[o.Sk-1].sk)
			} else {
				mkbfv.NewDecryptor(w.bp).PartialDecrypt(preA.b, w.keys[o.Sk-1].sk)
			}
		})
		if (msg == "") != (ob.Res == "ok") {
			ob.Db = 9999
		} else if ob.Res == "ok" {
			ob.Db = w.diffBits(tgt, preA, o.Wit)
		}
	}
	// copies are equal; padding keeps what was there and adds zeros
	if ob.Res == "ok" && o.Op == "copy" {
		ob.Eq = tgt.fp() == a.fp()
	}
	if ob.Res == "ok" && o.Op == "pad" {
		for id, p := range a.in().Value {
			h, g := new(fph), new(fph)
			h.poly(p)
			if q, in := preA.in().Value[id]; in {
				g.poly(q)
			} else {
				z := clonePoly(p)
				z.IsNTT = a.in().Value["0"].IsNTT
				for i := range z.Coeffs {
					for j := range z.Coeffs[i] {
						z.Coeffs[i][j] = 0
					}
				}
				g.poly(z)
			}
			if *h != *g {
				ob.Eq = false
			}
		}
	}
	if regops[o.Op] {
		ob.Regs = w.dumpRegs()
	}
	if setops[o.Op] {
		ob.Sets = w.dumpSets()
	}
	if len(w.keys) > nk {
		type tag struct {
			K   string `json:"k"`
			ID  string `json:"id"`
			Idx int    `json:"idx"`
		}
		var l []tag
		for _, k := range w.keys[nk:] {
			id, idx := k.tag()
			l = append(l, tag{k.kind, id, idx})
		}
		ob.Tags = l
	}
	return ob, after
}

// msgDiff: 0 when two decrypted messages agree, 9999 when not.
func msgDiff(x, y *Msg) int {
	if x.b != nil {
		if len(x.b.Value) != len(y.b.Value) {
			return 9999
		}
		for i := range x.b.Value {
			if x.b.Value[i] != y.b.Value[i] {
				return 9999
			}
		}
		return 0
	}
	if len(x.c.Value) != len(y.c.Value) {
		return 9999
	}
	for i := range x.c.Value {
		for _, p := range [][2]float64{{real(x.c.Value[i]), real(y.c.Value[i])}, {imag(x.c.Value[i]), imag(y.c.Value[i])}} {
			if d := math.Abs(p[0] - p[1]); !(d <= 1e-3+1e-6*math.Abs(p[0])) {
				return 9999
			}
		}
	}
	return 0
}
