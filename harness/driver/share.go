package main

import (
	"fmt"
	"sort"
	"unsafe"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkrlwe"
)

// Storage: writing to an object must not be visible in another one, so no two objects
// (nor two components of one) may lie in the same memory.

type span struct {
	lo, hi uintptr
	who    string
}

type spans []span

func (l *spans) words(who string, p unsafe.Pointer, n int, size uintptr) {
	if n > 0 {
		*l = append(*l, span{uintptr(p), uintptr(p) + uintptr(n)*size, who})
	}
}

func (l *spans) poly(who string, p *ring.Poly) {
	if p == nil {
		return
	}
	for _, c := range p.Coeffs {
		l.words(who, unsafe.Pointer(unsafe.SliceData(c)), len(c), 8)
	}
}

func (l *spans) qp(who string, p rlwe.PolyQP) { l.poly(who, p.Q); l.poly(who, p.P) }

func (l *spans) swk(who string, k *mkrlwe.SwitchingKey) {
	if k != nil {
		for _, v := range k.Value {
			l.qp(who, v)
		}
	}
}

func (l *spans) rlk(who string, k *mkrlwe.RelinearizationKey) {
	for _, v := range k.Value {
		l.swk(who, v)
	}
}

func (w *World) spans() spans {
	var l spans
	for i, x := range w.ct {
		for _, id := range sortedIDs(x.in().Value) {
			l.poly(fmt.Sprintf("ct%d", i+1), x.in().Value[id])
		}
	}
	for i, x := range w.hst {
		for _, k := range x.Value {
			l.swk(fmt.Sprintf("hst%d", i+1), k)
		}
	}
	for i, x := range w.pt {
		if x.c != nil {
			l.poly(fmt.Sprintf("pt%d", i+1), x.c.Value)
		} else {
			l.poly(fmt.Sprintf("pt%d", i+1), x.b.Value)
		}
	}
	for i, x := range w.msgs {
		who := fmt.Sprintf("msg%d", i+1)
		if x.c != nil {
			l.words(who, unsafe.Pointer(unsafe.SliceData(x.c.Value)), len(x.c.Value), 16)
		} else {
			l.words(who, unsafe.Pointer(unsafe.SliceData(x.b.Value)), len(x.b.Value), 8)
		}
	}
	for i, k := range w.keys {
		who := fmt.Sprintf("key%d", i+1)
		switch {
		case k.sk != nil:
			l.qp(who, k.sk.Value)
		case k.pk != nil:
			l.qp(who, k.pk.Value[0])
			l.qp(who, k.pk.Value[1])
		case k.rlk != nil:
			l.rlk(who, k.rlk)
		case k.brlk != nil:
			l.rlk(who, k.brlk.Value[0])
			l.rlk(who, k.brlk.Value[1])
		case k.rot != nil:
			l.swk(who, k.rot.Value)
		case k.cjk != nil:
			l.swk(who, k.cjk.Value)
		}
	}
	for i, k := range w.rp.CRS {
		l.swk(fmt.Sprintf("crs%d", i), k)
	}
	return l
}

// shared lists the pairs of objects with common storage that were not known before.
func (w *World) shared() []string {
	l := w.spans()
	sort.Slice(l, func(i, j int) bool { return l[i].lo < l[j].lo })
	var out []string
	for i := 1; i < len(l); i++ {
		if l[i].lo < l[i-1].hi {
			a, b := l[i-1].who, l[i].who
			if a > b {
				a, b = b, a
			}
			s := a + " shares storage with " + b
			if w.alias == nil {
				w.alias = map[string]bool{}
			}
			if !w.alias[s] {
				w.alias[s] = true
				out = append(out, s)
			}
		}
		if l[i].hi < l[i-1].hi { // one within the other: compare the next with the larger
			l[i] = l[i-1]
		}
	}
	return out
}
