package main

import (
	"fmt"
	"math/rand"
)

func init() {
	commands["planbases"] = cmdPlanBases
	commands["plans"] = cmdPlans
}

// PlanBase is what Layouts needs to know of rows
type PlanBase struct {
	Case   Case      `json:"case"`
	Rows   int       `json:"rows"`
	Stride int       `json:"stride"`
	Cols   []PlanCol `json:"cols"`
	Nulls  [][]int   `json:"nulls"`
}

type PlanCol struct {
	Kind   string `json:"kind"`
	Parent int    `json:"parent"`
}

func (c Case) base(stride int) PlanBase {
	d, _ := c.data()
	// nulls as they are, and columns that have none are not nullable
	c.Nulls = map[int][]bool{}
	cols := append([]Col{}, c.Cols...)
	b := PlanBase{Rows: c.Rows, Stride: stride}
	for i, col := range c.Cols {
		pat := make([]bool, c.Rows)
		bits := make([]int, c.Rows)
		cols[i].Nullable = false
		for r := range pat {
			if d.Cells[i][r][0] == 0 {
				bits[r] = 1
				if col.Parent < 0 || d.Cells[col.Parent][r][0] == 1 {
					pat[r] = true
					cols[i].Nullable = true
				}
			}
		}
		c.Nulls[i] = pat
		b.Cols = append(b.Cols, PlanCol{col.Kind, col.Parent})
		b.Nulls = append(b.Nulls, bits)
	}
	c.Cols = cols
	b.Case = c
	return b
}

func cmdPlanBases(p *Plan) interface{} {
	var a struct {
		Small bool `json:"small"`
	}
	p.arg(&a)
	var out []PlanBase
	for k := 0; k < p.Count; k++ {
		if !p.mine(k) {
			continue
		}
		seed := p.Seed*6700417 + int64(k)
		rnd := rand.New(rand.NewSource(seed))
		c := Case{Seed: seed, Rows: 1 + rnd.Intn(p.Rows), Prof: Profile{ShortStr: true}}
		stride := 0
		if rnd.Intn(4) > 0 {
			stride = 1 + rnd.Intn(1+c.Rows/2)
		}
		ke := kindEncs[k%len(kindEncs)]
		switch {
		case a.Small:
			c.Rows, stride = 2, k%2
			c.Cols = []Col{{Id: 0, Kind: ke.kind, Enc: ke.enc, Nullable: true, Children: []int{}, Names: []string{}, Parent: -1}}
			c.Nulls = map[int][]bool{0: {rnd.Intn(3) == 0, rnd.Intn(2) == 0}}
		case k%3 > 0:
			c.Cols = kindCols(ke.kind, ke.enc, rnd.Intn(3) > 0)
		default:
			if c.Cols = randomCols(rnd, 1+rnd.Intn(9), nil); k%16 == 11 {
				c.Cols, c.Rows, stride = wideCols(rnd, 34+rnd.Intn(3)), 1+rnd.Intn(3), k/16%2
			}
		}
		out = append(out, c.base(stride))
	}
	return out
}

// PlanOut is a file of a plan: what OrcGen needs, and its bytes taken apart
type PlanOut struct {
	Layout Layout   `json:"layout"`
	Rec    *FileRec `json:"rec"`
}

func cmdPlans(p *Plan) interface{} {
	var a struct {
		Bases []PlanBase `json:"bases"`
		Plans []FilePlan `json:"plans"`
		Small bool       `json:"small"`
	}
	p.arg(&a)
	var out []PlanOut
	for k := range a.Plans {
		if !p.mine(k) {
			continue
		}
		c := a.Bases[a.Plans[k].F-1].Case
		c.Plan = &a.Plans[k]
		c.Seed += int64(k) << 32
		rnd := rand.New(rand.NewSource(c.Seed))
		l := c.layout()
		l.Sim, l.Readers, l.Depth = true, 1+rnd.Intn(4), 6+rnd.Intn(14)
		if a.Small {
			l.Sim, l.Small, l.Readers, l.Incs, l.Depth = false, true, 1, 0, p.Rows
		}
		d, data, _, _ := c.make()
		for i := range d.Cols { // strings are as the plan says
			d.Cols[i].Enc = ""
		}
		o := WOpts{Compression: c.Plan.Head.Comp, ChunkSize: c.Plan.Head.Block, Stride: c.Plan.Head.Stride}
		out = append(out, PlanOut{l, record(fmt.Sprintf("plan %d", c.Seed), d, data, o, toJson(c))})
	}
	return out
}
