package main

import (
	"crypto/sha256"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
)

func init() { commands["splits"] = cmdSplits }

// SplitTrace is validated by BatchesTrace
type SplitTrace struct {
	Id     string `json:"id"`
	N      int    `json:"n"`
	Events []Ev   `json:"events"`
	Info   string `json:"info"`
}

// statsText is all that a file says of its rows
func statsText(m *FileMeta) string {
	type stripe struct {
		Stats   []*StatMeta
		Strides [][][]*StatMeta
	}
	all := struct {
		Stats   []*StatMeta
		Stripes []stripe
	}{Stats: m.Stats}
	for _, s := range m.Stripes {
		x := stripe{Stats: s.Stats}
		for _, st := range s.Streams {
			if st.Kind != 6 {
				continue
			}
			var es [][]*StatMeta
			for _, e := range parseIndex(st.Area.bytes) {
				es = append(es, e.Stat)
			}
			x.Strides = append(x.Strides, es)
		}
		all.Stripes = append(all.Stripes, x)
	}
	return toJson(all)
}

func digest(s string) string { return fmt.Sprintf("%x", sha256.Sum256([]byte(s)))[:24] }

// cmdSplits writes the same rows again and again
func cmdSplits(p *Plan) interface{} {
	out := []interface{}{}
	defer func() {
		if scratchDir != "" {
			os.RemoveAll(scratchDir)
		}
	}()
	for k := 0; k < p.Count; k++ {
		if !p.mine(k) {
			continue
		}
		seed := p.Seed*49979687 + int64(k)
		rnd := rand.New(rand.NewSource(seed))
		c := Case{Seed: seed, Opts: randomOpts(rnd)}
		if k%2 == 0 {
			ke := kindEncs[(k/2)%len(kindEncs)]
			c.Cols = kindCols(ke.kind, ke.enc, rnd.Intn(2) == 0)
		} else {
			c.Cols, _ = mixedCols(rnd, k, 1+rnd.Intn(8), 0)
		}
		c.Rows = randomRows(rnd, p.Rows/len(c.Cols))
		if rnd.Intn(3) > 0 {
			c.Opts.StripeSize = 1 + rnd.Intn(20+4*c.Rows)
		}
		if c.Opts.Stride < c.Rows/60 {
			c.Opts.Stride = c.Rows/60 + 1
		}
		c.Batches = splitRows(rnd, c.Rows)
		d, _ := c.data()
		t := &SplitTrace{Id: fmt.Sprintf("splits %d", seed), N: d.N, Events: []Ev{}}
		out = append(out, t)
		ones := []int{}
		for j := 0; j < c.Rows && j < 400; j++ {
			ones = append(ones, 1)
		}
		if len(ones) < c.Rows {
			ones = append(ones, c.Rows-len(ones))
		}
		empties := []int{0}
		for _, b := range splitRows(rnd, c.Rows) {
			empties = append(empties, b, 0)
		}
		splits := [][]int{{c.Rows}, c.Batches, ones, empties, splitRows(rnd, c.Rows), splitRows(rnd, c.Rows), c.Batches, {c.Rows}}
		if k%4 == 0 {
			splits = append(splits, c.Batches)
		}
		for j, b := range splits {
			disk := NewDisk(nil)
			disk.record = false
			disk.reuse = j%2 == 1
			if j == 8 {
				disk.path = scratch(p) + "/a.orc"
			}
			evs, ok := writeFile(d, c.Opts, b, disk)
			data := disk.data
			if j == 8 {
				data, _ = ioutil.ReadFile(disk.path)
			}
			e := Ev{"op": "run", "batches": append([]int{}, b...), "ok": ok, "stripes": []int{}, "stats": "", "bytes": digest(string(data))}
			if m, err := parseOrc(data); err == nil {
				rows := []int{}
				for _, s := range m.Stripes {
					rows = append(rows, s.Rows)
				}
				e["stripes"], e["stats"] = rows, digest(statsText(m))
			}
			t.Events = append(t.Events, e)
			if j < 5 {
				cc := c
				cc.Batches = b
				r := newTrace(fmt.Sprintf("split %d of %d", j, seed), d, cc)
				r.Events = evs
				if ok {
					s := newSession(NewDisk(data), rnd)
					s.disk.record = false
					s.open()
					s.readAll(0, d.N, func() int { return d.N + 1 })
					r.Events = append(r.Events, s.evs...)
				}
				out = append(out, r)
			}
		}
		c.Batches = nil
		t.Info = toJson(c)
	}
	return out
}
