package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

type program struct {
	Cfg string              `json:"cfg"`
	Ops []json.RawMessage   `json:"ops"`
	Thr [][]json.RawMessage `json:"thr"`
}

type event struct {
	O  json.RawMessage `json:"o"`
	R  *Obs            `json:"r"`
	Al *Obs            `json:"al,omitempty"` // concurrent programs: what the operation does alone
}

type trace struct {
	Cfg string  `json:"cfg"`
	N   int     `json:"n"`
	Ev  []event `json:"ev"`
}

func lines(path string, f func([]byte)) {
	fh, err := os.Open(path)
	must(err)
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(sc.Bytes()) > 0 {
			f(sc.Bytes())
		}
	}
	must(sc.Err())
}

var hung int
var progress *os.File

func broken(res, msg string) *Obs {
	return &Obs{Res: res, Msg: msg, IDs: []string{}, Val: []int{}, Frame: []string{}, Regs: []int{}, Tags: []int{}, Sets: []int{}, Races: []string{}}
}

// run executes one program; a call that does not return within the limit ends it.
func run(c *Cfg, p *program, n int, limit time.Duration) (*World, *trace) {
	t := &trace{Cfg: c.Name, N: n, Ev: []event{}}
	w := newWorld(c)
	ops := make([]Op, len(p.Ops))
	for i := range ops {
		must(json.Unmarshal(p.Ops[i], &ops[i]))
		if ops[i].ID != "" || ops[i].Op == "join" || ops[i].Op == "gensk" || ops[i].Op == "sadd" {
			w.name[ops[i].ID] = true
		}
		for _, id := range ops[i].IDs {
			w.name[id] = true
		}
	}
	snap := w.snapshot()
	for i := range ops {
		progress.WriteAt([]byte(fmt.Sprintf("%10d %10d\n", n, i)), 0)
		done := make(chan *Obs, 1)
		var next map[string]uint64
		fail := make(chan string, 1)
		go func() {
			defer func() {
				if e := recover(); e != nil {
					fail <- fmt.Sprint(e)
				}
			}()
			ob, after := w.step(&ops[i], snap)
			next = after
			done <- ob
		}()
		select {
		case ob := <-done:
			t.Ev = append(t.Ev, event{O: p.Ops[i], R: ob})
			if ops[i].Want != "" && ob.Res != ops[i].Want {
				return nil, t // the specification stops here as well
			}
		case msg := <-fail:
			if strings.Contains(msg, "driver:") {
				fmt.Fprintln(os.Stderr, "driver failure:", n, i, ops[i].Op, msg)
				os.Exit(3)
			}
			// a result so malformed that it cannot be looked at
			t.Ev = append(t.Ev, event{O: p.Ops[i], R: broken("crash", msg)})
			return nil, t
		case <-time.After(limit):
			t.Ev = append(t.Ev, event{O: p.Ops[i], R: broken("hang", "")})
			hung++
			return nil, t
		}
		snap = next
	}
	return w, t
}

func main() {
	cfgs := flag.String("cfgs", "", "configurations, one per line")
	in := flag.String("in", "", "programs, one per line")
	out := flag.String("out", "", "traces, one per line")
	shard := flag.Int("shard", 0, "")
	of := flag.Int("of", 1, "")
	limit := flag.Int("limit", 30, "seconds allowed for one operation")
	flag.Parse()
	cm := map[string]*Cfg{}
	lines(*cfgs, func(b []byte) {
		c := new(Cfg)
		must(json.Unmarshal(b, c))
		cm[c.Name] = c
	})
	fh, err := os.Create(*out)
	must(err)
	bw := bufio.NewWriterSize(fh, 1<<20)
	enc := json.NewEncoder(bw)
	progress, err = os.Create(*out + ".at")
	must(err)
	n := 0
	lines(*in, func(b []byte) {
		n++
		if n%*of != *shard || hung > 0 {
			return
		}
		p := new(program)
		must(json.Unmarshal(b, p))
		c := cm[p.Cfg]
		if c == nil {
			panic("driver: no configuration " + p.Cfg)
		}
		lim := time.Duration(*limit) * time.Second
		w, t := run(c, p, n, lim)
		if len(p.Thr) == 0 || w == nil {
			must(enc.Encode(t))
			return
		}
		progress.WriteAt([]byte(fmt.Sprintf("%10d %10d\n", n, len(p.Ops))), 0)
		for _, t := range parallel(w, t.Ev, p, n, lim) {
			must(enc.Encode(t))
		}
	})
	must(bw.Flush())
	must(fh.Close())
}
