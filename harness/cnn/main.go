// Command cnn evaluates the network's layers on the cases drawn by spec/CNNGen.tla.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"runtime/debug"
	"sync"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/cnn"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
)

type cfg struct {
	Name     string `json:"name"`
	LogN     int    `json:"logn"`
	LogSlots int    `json:"logslots"`
	Qb       []int  `json:"qb"`
	Pb       []int  `json:"pb"`
	Sb       int    `json:"sb"`
}

type vec [][2]int

type kase struct {
	Cfg   string   `json:"cfg"`
	Layer string   `json:"layer"`
	V     vec      `json:"v"`
	Pv    string   `json:"pv"`
	Ks    []vec    `json:"ks"`
	Pks   []string `json:"pks"`
	Ms    []vec    `json:"ms"`
	Pms   []string `json:"pms"`
	B1    vec      `json:"b1"`
	Pb1   string   `json:"pb1"`
	M2    vec      `json:"m2"`
	Pm2   string   `json:"pm2"`
	B2    vec      `json:"b2"`
	Pb2   string   `json:"pb2"`
	Mask  vec      `json:"mask"`
	Neg   bool     `json:"neg"`
	DropV int      `json:"dropv"`
	DropM int      `json:"dropm"`
	Again bool     `json:"again"`
	Num   int      `json:"num"`
}

type record struct {
	kase
	Res   string     `json:"res"`
	Msg   string     `json:"msg"`
	Frame []string   `json:"frame"`
	Outs  []vec      `json:"outs"`
	Ids   [][]string `json:"ids"`
	Err   float64    `json:"err"`
	Nano  int        `json:"nano"` // the same in 1e-9
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// world is everything made for one configuration and one choice of references.
type world struct {
	params mkckks.Parameters
	enc    *mkckks.Encryptor
	eval   *mkckks.Evaluator
	sks    *mkrlwe.SecretKeySet
	pks    *mkrlwe.PublicKeySet
	rlk    *mkrlwe.RelinearizationKeySet
	rtk    *mkrlwe.RotationKeySet
}

func newWorld(c *cfg, neg bool) *world {
	cnt := map[int]int{}
	for _, b := range append(append([]int{}, c.Qb...), c.Pb...) {
		cnt[b]++
	}
	pool := map[int][]uint64{}
	for b, n := range cnt {
		pool[b] = ring.GenerateNTTPrimes(b, 2<<c.LogN, n)
	}
	take := func(bs []int) (l []uint64) {
		for _, b := range bs {
			l = append(l, pool[b][0])
			pool[b] = pool[b][1:]
		}
		return
	}
	cp, err := ckks.NewParametersFromLiteral(ckks.ParametersLiteral{LogN: c.LogN, LogSlots: c.LogSlots, Q: take(c.Qb), P: take(c.Pb), Scale: math.Exp2(float64(c.Sb)), Sigma: 3.2})
	must(err)
	w := &world{params: mkckks.NewParameters(cp)}
	half := 1 << (c.LogN - 1)
	want := []int{14, 15}
	for i := 1; i < 20; i++ {
		want = append(want, 128*i)
	}
	if neg {
		want = append(want, -1, -2, -4, -8)
	}
	var rots []int
	for i := 1; i < half; i *= 2 {
		rots = append(rots, i)
	}
	for _, k := range want {
		k = ((k % half) + half) % half
		if k == 0 {
			continue
		}
		if _, in := w.params.CRS[k]; !in {
			w.params.AddCRS(k)
			rots = append(rots, k)
		}
	}
	kgen := mkckks.NewKeyGenerator(w.params)
	w.sks, w.pks, w.rlk, w.rtk = mkrlwe.NewSecretKeySet(), mkrlwe.NewPublicKeyKeySet(), mkrlwe.NewRelinearizationKeyKeySet(w.params.Parameters), mkrlwe.NewRotationKeySet()
	for _, id := range []string{"p1", "p2", "p3"} {
		sk, pk := kgen.GenKeyPair(id)
		w.sks.AddSecretKey(sk)
		w.pks.AddPublicKey(pk)
		w.rlk.AddRelinearizationKey(kgen.GenRelinearizationKey(sk, kgen.GenSecretKey(id)))
		for _, k := range rots {
			w.rtk.AddRotationKey(kgen.GenRotationKey(k, sk))
		}
	}
	w.enc, w.eval = mkckks.NewEncryptor(w.params), mkckks.NewEvaluator(w.params)
	return w
}

func (w *world) msg(v vec) *mkckks.Message {
	m := mkckks.NewMessage(w.params)
	for i, z := range v {
		m.Value[i] = complex(float64(z[0]), float64(z[1]))
	}
	return m
}

func (w *world) encrypt(v vec, id string, drop int) *mkckks.Ciphertext {
	ct := w.enc.EncryptMsgNew(w.msg(v), w.pks.GetPublicKey(id))
	if drop > 0 {
		w.eval.DropLevel(ct, drop)
	}
	return ct
}

func print(ct *mkckks.Ciphertext) string {
	s := fmt.Sprint(ct.Scale)
	for _, id := range []string{"0", "p1", "p2", "p3"} {
		if p, in := ct.Value[id]; in {
			h := uint64(14695981039346656037)
			for _, l := range p.Coeffs {
				for _, x := range l {
					h = (h ^ x) * 1099511628211
				}
			}
			s += fmt.Sprint(" ", id, len(p.Coeffs), h)
		}
	}
	return s
}

func (w *world) run(k *kase) (r *record) {
	r = &record{kase: *k, Res: "ok", Frame: []string{}, Outs: []vec{}, Ids: [][]string{}}
	defer func() {
		if e := recover(); e != nil {
			r.Res, r.Msg = "failed", fmt.Sprint(e)
			if os.Getenv("STACK") != "" {
				r.Msg += string(debug.Stack())
			}
		}
	}()
	ev := w.eval
	v := w.encrypt(k.V, k.Pv, k.DropV)
	hv := ev.HoistedForm(v)
	all := func(vs []vec, ps []string) (cts []*mkckks.Ciphertext, hs []*mkrlwe.HoistedCiphertext) {
		for i := range vs {
			ct := w.encrypt(vs[i], ps[i], k.DropM)
			cts = append(cts, ct)
			hs = append(hs, ev.HoistedForm(ct))
		}
		return
	}
	ks, hks := all(k.Ks, k.Pks)
	ms, hms := all(k.Ms, k.Pms)
	var b1, b2, m2 *mkckks.Ciphertext
	var mask *ckks.Plaintext
	inputs := map[string]*mkckks.Ciphertext{"v": v}
	for i, c := range ks {
		inputs[fmt.Sprint("k", i)] = c
	}
	for i, c := range ms {
		inputs[fmt.Sprint("m", i)] = c
	}
	if len(k.B1) > 0 {
		b1 = w.encrypt(k.B1, k.Pb1, 0)
		inputs["b1"] = b1
	}
	if len(k.B2) > 0 {
		b2, m2 = w.encrypt(k.B2, k.Pb2, 0), w.encrypt(k.M2, k.Pm2, 0)
		inputs["b2"], inputs["m2"] = b2, m2
		mask = w.enc.EncodeMsgNew(w.msg(k.Mask))
	}
	before := map[string]string{}
	for n, c := range inputs {
		before[n] = print(c)
	}
	rounds := 1
	if k.Again {
		rounds = 2
	}
	for i := 0; i < rounds; i++ {
		var out *mkckks.Ciphertext
		switch k.Layer {
		case "conv":
			out = cnn.Convolution(ev, w.rlk, w.rtk, v, hv, ks, hks)
		case "fc1":
			out = cnn.FC1Layer(ev, w.rlk, w.rtk, v, hv, ms, hms, b1)
		case "fc2":
			out = cnn.FC2Layer(ev, w.rlk, w.rtk, v, m2, b2, mask)
		case "net":
			a := cnn.Convolution(ev, w.rlk, w.rtk, v, hv, ks, hks)
			ha := ev.HoistedForm(a)
			a = ev.MulRelinHoistedNew(a, a, ha, ha, w.rlk)
			b := cnn.FC1Layer(ev, w.rlk, w.rtk, a, ev.HoistedForm(a), ms, hms, b1)
			hb := ev.HoistedForm(b)
			b = ev.MulRelinHoistedNew(b, b, hb, hb, w.rlk)
			out = cnn.FC2Layer(ev, w.rlk, w.rtk, b, m2, b2, mask)
		}
		res := mkckks.NewDecryptor(w.params).Decrypt(out.CopyNew(), w.sks)
		o := vec{}
		for _, z := range res.Value {
			a, b := math.Round(real(z)), math.Round(imag(z))
			r.Err = math.Max(r.Err, math.Max(math.Abs(real(z)-a), math.Abs(imag(z)-b)))
			clip := func(x float64) int {
				if !(math.Abs(x) < 1<<29) {
					return 1 << 29
				}
				return int(x)
			}
			o = append(o, [2]int{clip(a), clip(b)})
		}
		r.Outs = append(r.Outs, o)
		ids := []string{}
		for id := range out.IDSet().Value {
			ids = append(ids, id)
		}
		r.Ids = append(r.Ids, ids)
	}
	r.Nano = 1 << 30
	if r.Err < 1 {
		r.Nano = int(r.Err * 1e9)
	}
	for n, c := range inputs {
		if print(c) != before[n] {
			r.Frame = append(r.Frame, n)
		}
	}
	return r
}

func lines(path string, f func([]byte)) {
	fh, err := os.Open(path)
	must(err)
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(sc.Bytes()) > 0 {
			f(sc.Bytes())
		}
	}
	must(sc.Err())
}

func main() {
	cfgs := flag.String("cfgs", "", "")
	in := flag.String("in", "", "")
	out := flag.String("out", "", "")
	workers := flag.Int("j", 8, "")
	flag.Parse()
	cm := map[string]*cfg{}
	lines(*cfgs, func(b []byte) {
		c := new(cfg)
		must(json.Unmarshal(b, c))
		cm[c.Name] = c
	})
	groups := map[string][]*kase{}
	lines(*in, func(b []byte) {
		k := new(kase)
		must(json.Unmarshal(b, k))
		g := fmt.Sprint(k.Cfg, k.Neg)
		groups[g] = append(groups[g], k)
	})
	fh, err := os.Create(*out)
	must(err)
	bw := bufio.NewWriterSize(fh, 1<<20)
	enc := json.NewEncoder(bw)
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, *workers)
	for _, l := range groups {
		wg.Add(1)
		go func(l []*kase) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			w := newWorld(cm[l[0].Cfg], l[0].Neg)
			for _, k := range l {
				r := w.run(k)
				mu.Lock()
				must(enc.Encode(r))
				mu.Unlock()
			}
		}(l)
	}
	wg.Wait()
	must(bw.Flush())
	must(fh.Close())
}
