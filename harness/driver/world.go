// Command driver executes programs generated from the specification (Gen.tla)
// against the real library, and records what can be observed.
package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/ldsec/lattigo/v2/bfv"
	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
)

// Cfg is one parameter configuration (see tools/cfgs.py).
type Cfg struct {
	Name     string  `json:"name"`
	Scheme   string  `json:"scheme"`
	LogN     int     `json:"logn"`
	Half     int     `json:"half"`
	N        int     `json:"n"`
	Rows     int     `json:"rows"`
	Slots    int     `json:"slots"`
	Rep      string  `json:"rep"`
	TlaT     int64   `json:"t"`
	T        uint64  `json:"T"`
	MaxLev   int     `json:"maxlev"`
	Sb       int     `json:"sb"`
	Qb       []int   `json:"qb"`
	Pb       []int   `json:"pb"`
	QmulB    []int   `json:"qmulb"`
	LogSlots int     `json:"logslots"`
	Sigma    float64 `json:"sigma"`
}

func (c *Cfg) ckks() bool { return c.Scheme == "ckks" }

// primes returns distinct NTT primes of the given bit sizes.
func primes(logN int, groups ...[]int) [][]uint64 {
	cnt := map[int]int{}
	for _, g := range groups {
		for _, b := range g {
			cnt[b]++
		}
	}
	pool := map[int][]uint64{}
	for b, n := range cnt {
		pool[b] = ring.GenerateNTTPrimes(b, 2<<logN, n)
	}
	var out [][]uint64
	for _, g := range groups {
		var l []uint64
		for _, b := range g {
			l = append(l, pool[b][0])
			pool[b] = pool[b][1:]
		}
		out = append(out, l)
	}
	return out
}

type primeSet struct {
	q, p, qm []uint64
	ck       ckks.Parameters
}

var primeCache = map[string]*primeSet{}

func (c *Cfg) setup() *primeSet {
	if ps, ok := primeCache[c.Name]; ok {
		return ps
	}
	pr := primes(c.LogN, c.Qb, c.Pb, c.QmulB)
	ps := &primeSet{q: pr[0], p: pr[1], qm: pr[2]}
	if c.ckks() {
		var err error
		ps.ck, err = ckks.NewParametersFromLiteral(ckks.ParametersLiteral{LogN: c.LogN, LogSlots: c.LogSlots,
			Q: ps.q, P: ps.p, Scale: math.Ldexp(1, c.Sb), Sigma: c.Sigma})
		if err != nil {
			panic(err)
		}
	}
	primeCache[c.Name] = ps
	return ps
}

// Key is a generated key of any kind.
type Key struct {
	kind string
	id   string
	idx  int
	sk   *mkrlwe.SecretKey
	pk   *mkrlwe.PublicKey
	rlk  *mkrlwe.RelinearizationKey
	brlk *mkbfv.RelinearizationKey
	rot  *mkrlwe.RotationKey
	cjk  *mkrlwe.ConjugationKey
}

// Regs is one set of key registries.
type Regs struct {
	sk   *mkrlwe.SecretKeySet
	pk   *mkrlwe.PublicKeySet
	rlk  *mkrlwe.RelinearizationKeySet
	brlk *mkbfv.RelinearizationKeySet
	rot  *mkrlwe.RotationKeySet
	cjk  *mkrlwe.ConjugationKeySet
}

// Ctx is one set of evaluation contexts.
type Ctx struct {
	cenc *mkckks.Encryptor
	cdec *mkckks.Decryptor
	ceva *mkckks.Evaluator
	cks  *mkrlwe.KeySwitcher
	benc *mkbfv.Encryptor
	bdec *mkbfv.Decryptor
	beva *mkbfv.Evaluator
	bks  *mkbfv.KeySwitcher
	bcv  *mkbfv.FastBasisExtender
}

// Ct is a ciphertext of either scheme.
type Ct struct {
	c *mkckks.Ciphertext
	b *mkbfv.Ciphertext
}

func (x *Ct) in() *mkrlwe.Ciphertext {
	if x.c != nil {
		return x.c.Ciphertext
	}
	return x.b.Ciphertext
}

func (x *Ct) clone() *Ct { // deep copy, not using the library
	in := x.in()
	n := &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}
	for id, p := range in.Value {
		n.Value[id] = clonePoly(p)
	}
	if x.c != nil {
		return &Ct{c: &mkckks.Ciphertext{Ciphertext: n, Scale: x.c.Scale}}
	}
	return &Ct{b: &mkbfv.Ciphertext{Ciphertext: n}}
}

func clonePoly(p *ring.Poly) *ring.Poly {
	q := new(ring.Poly)
	*q = *p
	q.Coeffs = make([][]uint64, len(p.Coeffs))
	for i := range p.Coeffs {
		q.Coeffs[i] = append([]uint64(nil), p.Coeffs[i]...)
	}
	return q
}

// Pt is an encoded plaintext of either scheme.
type Pt struct {
	c *ckks.Plaintext
	b *bfv.Plaintext
}

// Msg is a message given to or returned by the library.
type Msg struct {
	c *mkckks.Message
	b *mkbfv.Message
}

// World is the state of one program's execution.
type World struct {
	cfg  *Cfg
	ps   *primeSet
	cp   mkckks.Parameters
	bp   mkbfv.Parameters
	rp   mkrlwe.Parameters
	kg   []*mkrlwe.KeyGenerator
	bkg  []*mkbfv.KeyGenerator
	regs []*Regs
	ctx  []*Ctx
	keys []*Key
	ct   []*Ct
	hst  []*mkrlwe.HoistedCiphertext
	// pairs of objects known to share storage
	alias map[string]bool
	pt    []*Pt
	sets  []*mkrlwe.IDSet
	msgs  []*Msg
	name  map[string]bool
	cenc  ckks.Encoder // the observer's own
	benc  bfv.Encoder
	bpar  bfv.Parameters
}

func newWorld(c *Cfg) *World {
	w := &World{cfg: c, ps: c.setup(), name: map[string]bool{}}
	if c.ckks() {
		w.cp = mkckks.NewParameters(w.ps.ck)
		w.rp = w.cp.Parameters
		w.cenc = ckks.NewEncoder(w.ps.ck)
	} else {
		w.bp = w.newBfv()
		w.rp = w.bp.Parameters
		w.bpar, _ = bfv.NewParameters(w.bp.Parameters.Parameters, w.bp.T())
		w.benc = bfv.NewEncoder(w.bpar)
	}
	for i := 0; i < 3; i++ {
		if c.ckks() {
			w.kg = append(w.kg, mkckks.NewKeyGenerator(w.cp))
			w.bkg = append(w.bkg, nil)
		} else {
			b := mkbfv.NewKeyGenerator(w.bp)
			w.bkg = append(w.bkg, b)
			w.kg = append(w.kg, b.KeyGenerator)
		}
	}
	for i := 0; i < 2; i++ {
		w.regs = append(w.regs, w.newRegs())
		w.ctx = append(w.ctx, w.newCtx())
	}
	return w
}

func (w *World) newRegs() *Regs {
	r := &Regs{sk: mkrlwe.NewSecretKeySet(), pk: mkrlwe.NewPublicKeyKeySet(), rot: mkrlwe.NewRotationKeySet(), cjk: mkrlwe.NewConjugationKeySet()}
	if w.cfg.ckks() {
		r.rlk = mkrlwe.NewRelinearizationKeyKeySet(w.rp)
	} else {
		r.brlk = mkbfv.NewRelinearizationKeyKeySet(w.bp)
	}
	return r
}

// newEval makes fresh evaluation contexts only.
func (w *World) newEval() *Ctx {
	x := &Ctx{}
	if w.cfg.ckks() {
		x.ceva = mkckks.NewEvaluator(w.cp)
		x.cks = mkrlwe.NewKeySwitcher(w.rp)
	} else {
		x.beva = mkbfv.NewEvaluator(w.bp)
		x.bks = mkbfv.NewKeySwitcher(w.bp)
		x.bcv = mkbfv.NewFastBasisExtender(w.bp.RingP(), w.bp.RingQ(), w.bp.RingQMul(), w.bp.RingR())
	}
	return x
}

func (w *World) newCtx() *Ctx {
	x := w.newEval()
	if w.cfg.ckks() {
		x.cenc = mkckks.NewEncryptor(w.cp)
		x.cdec = mkckks.NewDecryptor(w.cp)
	} else {
		x.benc = mkbfv.NewEncryptor(w.bp)
		x.bdec = mkbfv.NewDecryptor(w.bp)
	}
	return x
}

// pristine returns a view of this world whose parameters have no history; keys and references are the same.
func (w *World) pristine() *World {
	z := *w
	crs := map[int]*mkrlwe.SwitchingKey{}
	for i, k := range w.rp.CRS {
		crs[i] = k
	}
	if w.cfg.ckks() {
		z.cp = mkckks.NewParameters(w.ps.ck)
		z.cp.CRS = crs
		z.rp = z.cp.Parameters
	} else {
		z.bp = w.newBfv()
		z.bp.CRS = crs
		z.rp = z.bp.Parameters
	}
	return &z
}

func (w *World) newBfv() mkbfv.Parameters {
	c := w.cfg
	return mkbfv.NewParametersFromLiteral(mkbfv.ParametersLiteral{LogN: c.LogN, Q: append([]uint64(nil), w.ps.q...),
		QMul: append([]uint64(nil), w.ps.qm...), P: append([]uint64(nil), w.ps.p...), T: c.T, Sigma: c.Sigma})
}

// freshRegs returns registries with the same entries and new scratch space.
func (w *World) freshRegs(r *Regs) *Regs {
	n := w.newRegs()
	for _, k := range r.sk.Value {
		n.sk.AddSecretKey(k)
	}
	for _, k := range r.pk.Value {
		n.pk.AddPublicKey(k)
	}
	if r.rlk != nil {
		for _, k := range r.rlk.Value {
			n.rlk.AddRelinearizationKey(k)
		}
	}
	if r.brlk != nil {
		for _, k := range r.brlk.Value {
			n.brlk.AddRelinearizationKey(k)
		}
	}
	for _, m := range r.rot.Value {
		for _, k := range m {
			n.rot.AddRotationKey(k)
		}
	}
	for _, k := range r.cjk.Value {
		n.cjk.AddConjugationKey(k)
	}
	return n
}

// ---------------------------------------------------------------- registries

func (r *Regs) add(k *Key) {
	switch k.kind {
	case "sk":
		r.sk.AddSecretKey(k.sk)
	case "pk":
		r.pk.AddPublicKey(k.pk)
	case "rlk":
		if r.rlk != nil {
			r.rlk.AddRelinearizationKey(k.rlk)
		} else {
			r.brlk.AddRelinearizationKey(k.brlk)
		}
	case "rot":
		r.rot.AddRotationKey(k.rot)
	case "cjk":
		r.cjk.AddConjugationKey(k.cjk)
	}
}

func (r *Regs) del(k, id string, idx int) {
	switch k {
	case "sk":
		r.sk.DelSecretKey(id)
	case "pk":
		r.pk.DelPublicKey(id)
	case "rlk":
		if r.rlk != nil {
			r.rlk.DelRelinearizationKey(id)
		} else {
			r.brlk.DelRelinearizationKey(id)
		}
	case "rot":
		r.rot.DelRotationKey(id, uint(idx))
	case "cjk":
		r.cjk.DelConjugationKey(id)
	}
}

// get looks a key up; it panics when the library does.
func (r *Regs) get(k, id string, idx int) *Key {
	switch k {
	case "sk":
		return &Key{kind: k, sk: r.sk.GetSecretKey(id)}
	case "pk":
		return &Key{kind: k, pk: r.pk.GetPublicKey(id)}
	case "rlk":
		if r.rlk != nil {
			return &Key{kind: k, rlk: r.rlk.GetRelinearizationKey(id)}
		}
		return &Key{kind: k, brlk: r.brlk.GetRelinearizationKey(id)}
	case "rot":
		return &Key{kind: k, rot: r.rot.GetRotationKey(id, uint(idx))}
	case "cjk":
		return &Key{kind: k, cjk: r.cjk.GetConjugationKey(id)}
	}
	return nil
}

// uid identifies a looked-up key: the index (from 1) of the generated key it is, by identity or else by content.
func (w *World) uid(k *Key) int {
	if k == nil || k.obj() == nil {
		return 0
	}
	for i, g := range w.keys {
		if g.kind == k.kind && g.obj() == k.obj() {
			return i + 1
		}
	}
	f := k.fp()
	for i, g := range w.keys {
		if g.kind == k.kind && g.fp() == f {
			return i + 1
		}
	}
	return 0
}

func (k *Key) obj() interface{} {
	switch {
	case k.sk != nil:
		return k.sk
	case k.pk != nil:
		return k.pk
	case k.rlk != nil:
		return k.rlk
	case k.brlk != nil:
		return k.brlk
	case k.rot != nil:
		return k.rot
	case k.cjk != nil:
		return k.cjk
	}
	return nil
}

// tag is what the key says about itself.
func (k *Key) tag() (string, int) {
	switch {
	case k.sk != nil:
		return k.sk.ID, 0
	case k.pk != nil:
		return k.pk.ID, 0
	case k.rlk != nil:
		return k.rlk.ID, 0
	case k.brlk != nil:
		if k.brlk.Value[0].ID != k.brlk.ID || k.brlk.Value[1].ID != k.brlk.ID {
			return k.brlk.ID + "/" + k.brlk.Value[0].ID + "/" + k.brlk.Value[1].ID, 0
		}
		return k.brlk.ID, 0
	case k.rot != nil:
		return k.rot.ID, int(k.rot.RotIdx)
	case k.cjk != nil:
		return k.cjk.ID, 0
	}
	return "?", 0
}

// ---------------------------------------------------------------- fingerprints

type fph uint64

func (h *fph) u(x uint64) {
	v := uint64(*h)
	v = (v ^ x) * 0x9E3779B97F4A7C15
	v ^= v >> 29
	*h = fph(v)
}
func (h *fph) s(x string) {
	h.u(uint64(len(x)))
	for i := 0; i < len(x); i++ {
		h.u(uint64(x[i]))
	}
}
func (h *fph) poly(p *ring.Poly) {
	if p == nil {
		h.u(77)
		return
	}
	h.u(uint64(len(p.Coeffs)))
	if p.IsNTT {
		h.u(1)
	}
	for _, c := range p.Coeffs {
		for _, x := range c {
			h.u(x)
		}
	}
}
func (h *fph) qp(p rlwe.PolyQP) { h.poly(p.Q); h.poly(p.P) }
func (h *fph) swk(k *mkrlwe.SwitchingKey) {
	if k == nil {
		h.u(78)
		return
	}
	h.u(uint64(len(k.Value)))
	for _, p := range k.Value {
		h.qp(p)
	}
}
func (h *fph) rlk(k *mkrlwe.RelinearizationKey) {
	h.s(k.ID)
	for _, v := range k.Value {
		h.swk(v)
	}
}

func (k *Key) fp() uint64 {
	h := new(fph)
	h.s(k.kind)
	switch {
	case k.sk != nil:
		h.s(k.sk.ID)
		h.qp(k.sk.Value)
	case k.pk != nil:
		h.s(k.pk.ID)
		h.qp(k.pk.Value[0])
		h.qp(k.pk.Value[1])
	case k.rlk != nil:
		h.rlk(k.rlk)
	case k.brlk != nil:
		h.s(k.brlk.ID)
		h.rlk(k.brlk.Value[0])
		h.rlk(k.brlk.Value[1])
	case k.rot != nil:
		h.s(k.rot.ID)
		h.u(uint64(k.rot.RotIdx))
		h.swk(k.rot.Value)
	case k.cjk != nil:
		h.s(k.cjk.ID)
		h.swk(k.cjk.Value)
	}
	return uint64(*h)
}

func sortedIDs(m map[string]*ring.Poly) []string {
	var l []string
	for id := range m {
		l = append(l, id)
	}
	sort.Strings(l)
	return l
}

func (x *Ct) fp() uint64 {
	h := new(fph)
	in := x.in()
	for _, id := range sortedIDs(in.Value) {
		h.s(id)
		h.poly(in.Value[id])
	}
	if x.c != nil {
		h.u(math.Float64bits(x.c.Scale))
	}
	return uint64(*h)
}

func fpHst(x *mkrlwe.HoistedCiphertext) uint64 {
	h := new(fph)
	var l []string
	for id := range x.Value {
		l = append(l, id)
	}
	sort.Strings(l)
	for _, id := range l {
		h.s(id)
		h.swk(x.Value[id])
	}
	return uint64(*h)
}

func (p *Pt) fp() uint64 {
	h := new(fph)
	if p.c != nil {
		h.poly(p.c.Value)
		h.u(math.Float64bits(p.c.Scale))
	} else {
		h.poly(p.b.Value)
	}
	return uint64(*h)
}

func (m *Msg) fp() uint64 {
	h := new(fph)
	if m.c != nil {
		h.u(uint64(len(m.c.Value)))
		for _, z := range m.c.Value {
			h.u(math.Float64bits(real(z)))
			h.u(math.Float64bits(imag(z)))
		}
	} else {
		h.u(uint64(len(m.b.Value)))
		for _, z := range m.b.Value {
			h.u(uint64(z))
		}
	}
	return uint64(*h)
}

// regDump lists the entries of all registries (by direct inspection).
func (w *World) regFp() uint64 {
	var l []string
	put := func(k string, r int, id string, idx int, o interface{}) {
		l = append(l, fmt.Sprintf("%s %d %q %d %p", k, r, id, idx, o))
	}
	for r, g := range w.regs {
		for id, k := range g.sk.Value {
			put("sk", r, id, 0, k)
		}
		for id, k := range g.pk.Value {
			put("pk", r, id, 0, k)
		}
		if g.rlk != nil {
			for id, k := range g.rlk.Value {
				put("rlk", r, id, 0, k)
			}
		}
		if g.brlk != nil {
			for id, k := range g.brlk.Value {
				put("rlk", r, id, 0, k)
			}
		}
		for id, m := range g.rot.Value {
			for idx, k := range m {
				put("rot", r, id, int(idx), k)
			}
		}
		for id, k := range g.cjk.Value {
			put("cjk", r, id, 0, k)
		}
	}
	sort.Strings(l)
	h := new(fph)
	for _, s := range l {
		h.s(s)
	}
	return uint64(*h)
}

// snapshot fingerprints every object that exists.
func (w *World) snapshot() map[string]uint64 {
	m := map[string]uint64{}
	for i, x := range w.ct {
		m[fmt.Sprintf("ct%d", i+1)] = x.fp()
	}
	for i, x := range w.hst {
		m[fmt.Sprintf("hst%d", i+1)] = fpHst(x)
	}
	for i, x := range w.pt {
		m[fmt.Sprintf("pt%d", i+1)] = x.fp()
	}
	for i, x := range w.msgs {
		m[fmt.Sprintf("msg%d", i+1)] = x.fp()
	}
	for i, x := range w.keys {
		m[fmt.Sprintf("key%d", i+1)] = x.fp()
	}
	for idx, k := range w.rp.CRS {
		h := new(fph)
		h.swk(k)
		m[fmt.Sprintf("crs%d", idx)] = uint64(*h)
	}
	for i, s := range w.sets {
		h := new(fph)
		for _, id := range w.names() {
			if s.Has(id) {
				h.s(id)
			}
		}
		h.u(uint64(s.Size()))
		m[fmt.Sprintf("set%d", i+1)] = uint64(*h)
	}
	m["reg"] = w.regFp()
	return m
}

func (w *World) names() []string {
	var l []string
	for n := range w.name {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}
