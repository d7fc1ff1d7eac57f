package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
)

func init() {
	commands["roundtrip"] = cmdRoundtrip
}

// Case describes a file so that it can be made again
type Case struct {
	Seed    int64          `json:"seed"`
	Cols    []Col          `json:"cols"`
	Rows    int            `json:"rows"`
	Opts    WOpts          `json:"opts"`
	Batches []int          `json:"batches"`
	Prof    Profile        `json:"prof"`
	Nulls   map[int][]bool `json:"nulls,omitempty"` // null patterns of columns, instead of random ones
	Plan    *FilePlan      `json:"plan,omitempty"`  // a file of another writer
}

func vecFlags(cols []Col) (v []bool) {
	for _, c := range cols {
		v = append(v, c.Kind != "struct" || c.Nullable)
	}
	return
}

func toJson(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		fatal(err)
	}
	return string(b)
}

func newTrace(id string, d *Data, info interface{}) *Trace {
	return &Trace{Id: id, N: d.N, Cols: d.Cells, Vec: vecFlags(d.Cols), Events: []Ev{}, Info: toJson(info)}
}

// random row counts: small ones, ones around run lengths, and larger ones
func randomRows(rnd *rand.Rand, max int) int {
	switch rnd.Intn(5) {
	case 0:
		return rnd.Intn(20)
	case 1:
		edges := []int{0, 1, 2, 3, 127, 128, 129, 130, 131, 511, 512, 513, 1024, 1025}
		n := edges[rnd.Intn(len(edges))]
		if n > max {
			n = max
		}
		return n
	}
	return rnd.Intn(max + 1)
}

// readAll reads everything with batch reader 0, capacities by the function
func (s *Session) readAll(r, total int, caps func() int) {
	s.do(Op{Op: "create", R: r})
	ends := 0
	for steps := 0; steps < 2*total+5 && !s.broken && ends < 2; steps++ {
		n := len(s.evs)
		s.do(Op{Op: "next", R: r, Cap: caps()})
		if len(s.evs) == n {
			return
		}
		e := s.evs[len(s.evs)-1]
		if e["ok"] != true {
			return
		}
		if e["end"] == true { // and once more after the end
			ends++
		}
	}
}

func randCaps(rnd *rand.Rand, total int) func() int {
	fixed := 0
	switch rnd.Intn(4) {
	case 0:
		fixed = 1 + rnd.Intn(1+total)
	case 1:
		fixed = total + 10
	case 2:
		fixed = 1 + total/(1+rnd.Intn(30))
	}
	return func() int {
		if fixed > 0 {
			return fixed
		}
		return 1 + total/40 + rnd.Intn(1+total/10)
	}
}

func cmdRoundtrip(p *Plan) interface{} {
	var out []*Trace
	var a struct {
		Nullable bool `json:"nullable"`
	}
	if p.ArgFile != "" {
		p.arg(&a)
	}
	for k := 0; k < p.Count; k++ {
		if !p.mine(k) {
			continue
		}
		seed := p.Seed*1000003 + int64(k)
		rnd := rand.New(rand.NewSource(seed))
		c := Case{Seed: seed}
		c.Cols, _ = mixedCols(rnd, k, 1+rnd.Intn(8), 0)
		c.Opts = randomOpts(rnd)
		if a.Nullable { // everything that may be
			for i := range c.Cols {
				above := false
				for q := c.Cols[i].Parent; q >= 0; q = c.Cols[q].Parent {
					above = above || c.Cols[q].Nullable
				}
				c.Cols[i].Nullable = !above && (c.Cols[i].Kind != "struct" || i > 0 && rnd.Intn(2) == 0)
			}
		}
		budget := p.Rows / len(c.Cols)
		c.Rows = randomRows(rnd, budget)
		c.Batches = splitRows(rnd, c.Rows)
		d, data, evs, ok := c.make()
		t := newTrace(fmt.Sprintf("roundtrip %d", seed), d, c)
		t.Events = evs
		if ok {
			s := newSession(NewDisk(data), rnd)
			s.disk.record = false
			s.open()
			s.readAll(0, c.Rows, randCaps(rnd, c.Rows))
			t.Events = append(t.Events, s.evs...)
		}
		out = append(out, t)
	}
	return out
}
