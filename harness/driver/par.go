package main

import (
	"encoding/json"
	"fmt"
	"sync"
	"time"

	"github.com/ldsec/lattigo/v2/bfv"
	"github.com/ldsec/lattigo/v2/ckks"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"verifharness/racelog"
)

// fork returns a world of one thread's own: it shares parameters, keys, registries, ciphertexts,
// hoisted forms and plaintexts with w, and has key generators and contexts of its own.
func (w *World) fork() *World {
	v := *w
	v.keys = w.keys[:len(w.keys):len(w.keys)]
	v.ct = w.ct[:len(w.ct):len(w.ct)]
	v.hst = w.hst[:len(w.hst):len(w.hst)]
	v.pt = w.pt[:len(w.pt):len(w.pt)]
	v.sets = w.sets[:len(w.sets):len(w.sets)]
	v.msgs = w.msgs[:len(w.msgs):len(w.msgs)]
	v.kg, v.bkg, v.ctx = nil, nil, nil
	v.alias = map[string]bool{}
	for s := range w.alias {
		v.alias[s] = true
	}
	if w.cfg.ckks() {
		v.cenc = ckks.NewEncoder(w.ps.ck)
	} else {
		v.benc = bfv.NewEncoder(w.bpar)
	}
	return &v
}

// contexts makes the thread's own generators and contexts.
func (w *World) contexts() {
	for i := 0; i < 3; i++ {
		if w.cfg.ckks() {
			w.kg = append(w.kg, mkckks.NewKeyGenerator(w.cp))
			w.bkg = append(w.bkg, nil)
		} else {
			b := mkbfv.NewKeyGenerator(w.bp)
			w.bkg = append(w.bkg, b)
			w.kg = append(w.kg, b.KeyGenerator)
		}
	}
	w.ctx = append(w.ctx, w.newCtx(), w.newCtx())
}

// perform runs operations one after the other.
func (w *World) perform(raw []json.RawMessage, ops []Op) (ev []event) {
	defer func() {
		if e := recover(); e != nil {
			ev = append(ev, event{O: raw[len(ev)], R: broken("crash", fmt.Sprint(e))})
		}
	}()
	w.contexts()
	snap := w.snapshot()
	for i := range ops {
		ob, after := w.step(&ops[i], snap)
		ev = append(ev, event{O: raw[i], R: ob})
		if ops[i].Want != "" && ob.Res != ops[i].Want {
			return
		}
		snap = after
	}
	return
}

// parallel runs the threads' programs from the same state, all at once and then each alone.
func parallel(w *World, pre []event, p *program, n int, limit time.Duration) []*trace {
	ops := make([][]Op, len(p.Thr))
	for t := range p.Thr {
		ops[t] = make([]Op, len(p.Thr[t]))
		for i := range ops[t] {
			must(json.Unmarshal(p.Thr[t][i], &ops[t][i]))
			if ops[t][i].ID != "" || ops[t][i].Op == "gensk" || ops[t][i].Op == "sadd" {
				w.name[ops[t][i].ID] = true
			}
		}
	}
	from := racelog.Size()
	evs := make([][]event, len(p.Thr))
	var wg sync.WaitGroup
	start := make(chan bool)
	for t := range p.Thr {
		wg.Add(1)
		v := w.fork()
		go func(t int) {
			defer wg.Done()
			<-start
			evs[t] = v.perform(p.Thr[t], ops[t])
		}(t)
	}
	close(start)
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	par := broken("ok", "")
	par.Eq = true
	out := []*trace{{Cfg: w.cfg.Name, N: n, Ev: []event{{O: json.RawMessage(`{"op":"par","n":` + fmt.Sprint(len(p.Thr)) + `}`), R: par}}}}
	select {
	case <-done:
	case <-time.After(10 * limit):
		par.Res = "hang"
		hung++
		return out
	}
	par.Races = racelog.Since(from)
	for t := range p.Thr {
		alone := w.fork().perform(p.Thr[t], ops[t])
		for i := range evs[t] {
			if i < len(alone) {
				evs[t][i].Al = alone[i].R
			} else {
				evs[t][i].Al = broken("none", "")
			}
		}
		out = append(out, &trace{Cfg: w.cfg.Name, N: n + (t+1)*100000, Ev: append(pre[:len(pre):len(pre)], evs[t]...)})
	}
	return out
}
