package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
)

func init() {
	commands["fleet"] = cmdFleet
	commands["parallel"] = cmdParallel
}

// FleetRec is validated by FleetTrace
type FleetRec struct {
	Id     string     `json:"id"`
	Alone  [][]string `json:"alone"`
	Events []Ev       `json:"events"`
	Info   string     `json:"info"`
}

// actor takes steps; each step answers with all the caller can see
type actor struct {
	desc  string
	steps []func() string
}

func try(f func() string) (res string) {
	if t := guard(func() { res = f() }); t != "" {
		return t
	}
	return
}

// shared is what actors of one run have in common on purpose: readers, schema objects
type shared struct {
	readers map[int]orc.Reader
	schemas map[int]*api.TypeDescription
}

func newShared() *shared {
	return &shared{map[int]orc.Reader{}, map[int]*api.TypeDescription{}}
}

type actorPlan struct {
	Kind  string `json:"kind"` // writer reader batch
	Case  Case   `json:"case"`
	Group int    `json:"group"` // of a batch actor: its reader; of a writer: its schema object, if not 0
	Seed  int64  `json:"seed"`
	Fault *Fault `json:"fault"`
	Steps int    `json:"steps"`
	d     *Data
	data  []byte
}

// prepare makes what runs only look at
func (p *actorPlan) prepare() {
	p.d, _ = p.Case.data()
	if p.Kind != "writer" {
		_, p.data, _, _ = p.Case.make()
	}
}

// fill makes common objects before the steps
func (s *shared) fill(plans []*actorPlan) {
	for _, p := range plans {
		if p.Group == 0 {
			continue
		}
		if p.Kind == "batch" && s.readers[p.Group] == nil {
			if r, err := orc.VerifNewReader(&MemFile{d: &Disk{data: p.data, free: true}}); err == nil {
				s.readers[p.Group] = r
			}
		}
		if p.Kind == "writer" && s.schemas[p.Group] == nil {
			s.schemas[p.Group] = schemaFromCols(p.Case.Cols)
		}
	}
}

func (p *actorPlan) actor(sh *shared) *actor {
	a := &actor{desc: p.Kind}
	rnd := rand.New(rand.NewSource(p.Seed))
	d := p.d
	if p.Kind == "writer" {
		disk := NewDisk(nil)
		disk.fault = p.Fault
		var w orc.Writer
		a.steps = append(a.steps, func() string {
			schema := schemaFromCols(d.Cols)
			if p.Group > 0 {
				schema = sh.schemas[p.Group]
			}
			return try(func() string {
				var err error
				w, err = orc.VerifNewWriter(schema, p.Case.Opts.opts(), disk.Open())
				return fmt.Sprint("create ", err)
			})
		})
		at := 0
		for j := 0; j < p.Steps-2; j++ {
			n := rnd.Intn(1 + d.N - at)
			if j == p.Steps-3 {
				n = d.N - at
			}
			from := at
			at += n
			a.steps = append(a.steps, func() string {
				if w == nil {
					return "no writer"
				}
				return try(func() string {
					err := w.Write(ownBytes(d.vector(from, from+n)))
					return fmt.Sprint("write ", n, err, digest(string(disk.data)))
				})
			})
		}
		a.steps = append(a.steps, func() string {
			if w == nil {
				return "no writer"
			}
			return try(func() string {
				err := w.Close()
				return fmt.Sprint("close ", err, digest(string(disk.data)))
			})
		})
		return a
	}
	disk := NewDisk(p.data)
	disk.fault = p.Fault
	disk.record = false
	s := newSession(disk, rnd)
	rest := func() string {
		r := toJson(s.evs)
		s.evs = nil
		if len(r) > 200 {
			return r[:60] + digest(r)
		}
		return r
	}
	inc := projection(p.Case, rnd.Intn(4))
	a.steps = append(a.steps, func() string {
		if p.Kind == "batch" {
			s.r = sh.readers[p.Group]
			if s.r == nil {
				return "no reader"
			}
			s.rclosed = true // somebody else's
			s.kinds = map[int]string{}
			for _, c := range d.Cols {
				s.kinds[c.Id] = c.Kind
			}
		} else {
			s.open()
		}
		s.do(Op{Op: "create", R: 0, Inc: inc})
		return rest()
	})
	for j := 0; j < p.Steps-2; j++ {
		o := Op{Op: "next", R: 0, Cap: 1 + rnd.Intn(1+d.N/2)}
		if rnd.Intn(3) == 0 {
			o = Op{Op: "seek", R: 0, K: rnd.Intn(d.N + 1)}
		}
		a.steps = append(a.steps, func() string {
			s.do(o)
			return rest()
		})
	}
	a.steps = append(a.steps, func() string {
		s.do(Op{Op: "close", R: 0})
		if p.Kind == "reader" {
			s.do(Op{Op: "closereader"})
		}
		return rest()
	})
	return a
}

// fleetPlans: n actors of random kinds; some share a reader, or a schema object
func fleetPlans(rnd *rand.Rand, seed int64, n, steps, rows int) []*actorPlan {
	var plans []*actorPlan
	base, _ := smallCase(seed, rnd.Intn(40), rows)
	for k := 0; k < n; k++ {
		c, _ := smallCase(seed+int64(k)*101, rnd.Intn(40), rows)
		p := &actorPlan{Kind: []string{"writer", "reader", "batch"}[rnd.Intn(3)], Case: c, Seed: rnd.Int63(), Steps: steps}
		switch {
		case p.Kind == "batch":
			p.Group, p.Case = 1, base
		case p.Kind == "writer" && rnd.Intn(3) == 0: // the same schema object, other rows
			p.Group, p.Case.Cols = 2, base.Cols
		case rnd.Intn(3) == 0:
			p.Case = base
		}
		if p.Kind != "batch" && rnd.Intn(6) == 0 {
			p.Fault = &Fault{Class: map[string]string{"writer": "write", "reader": "read"}[p.Kind], K: 1 + rnd.Intn(30), Mode: "err"}
		}
		p.prepare()
		plans = append(plans, p)
	}
	return plans
}

func aloneRuns(plans []*actorPlan) [][]string {
	alone := [][]string{}
	for _, p := range plans {
		sh := newShared()
		sh.fill([]*actorPlan{p})
		res := []string{}
		for _, f := range p.actor(sh).steps {
			res = append(res, f())
		}
		alone = append(alone, res)
	}
	return alone
}

// cmdFleet takes the steps of actors in the orders that TLC made
func cmdFleet(p *Plan) interface{} {
	var orders [][]int
	p.arg(&orders)
	out := []*FleetRec{}
	var plans []*actorPlan
	var alone [][]string
	for k, o := range orders {
		if !p.mine(k) {
			continue
		}
		seed := p.Seed*15487469 + int64(k)
		rnd := rand.New(rand.NewSource(seed))
		n := 0
		for _, a := range o {
			if a > n {
				n = a
			}
		}
		if k/8%10 == 0 || plans == nil || len(plans) != n { // other actors now and then
			plans = fleetPlans(rnd, seed, n, len(o)/n, p.Rows)
			alone = aloneRuns(plans)
		}
		sh := newShared()
		sh.fill(plans)
		var actors []*actor
		for _, pl := range plans {
			actors = append(actors, pl.actor(sh))
		}
		r := &FleetRec{Id: fmt.Sprintf("order %d", seed), Alone: alone, Info: toJson(plans)}
		out = append(out, r)
		pos := make([]int, n)
		for _, a := range o {
			r.Events = append(r.Events, Ev{"op": "step", "a": a, "res": actors[a-1].steps[pos[a-1]]()})
			pos[a-1]++
		}
	}
	return out
}

// cmdParallel: every actor in its own goroutine
func cmdParallel(p *Plan) interface{} {
	out := []*FleetRec{}
	for k := 0; k < p.Count; k++ {
		if !p.mine(k) {
			continue
		}
		seed := p.Seed*32452867 + int64(k)
		rnd := rand.New(rand.NewSource(seed))
		n := 4 + rnd.Intn(8)
		plans := fleetPlans(rnd, seed, n, 4+rnd.Intn(8), p.Rows)
		alone := aloneRuns(plans)
		sh := newShared()
		sh.fill(plans)
		r := &FleetRec{Id: fmt.Sprintf("parallel %d", seed), Alone: alone, Info: toJson(plans)}
		out = append(out, r)
		var mu sync.Mutex
		var wg, start sync.WaitGroup
		start.Add(1)
		for j, pl := range plans {
			j, a := j, pl.actor(sh)
			wg.Add(1)
			go func() {
				defer wg.Done()
				start.Wait()
				evs := []Ev{}
				for _, f := range a.steps {
					evs = append(evs, Ev{"op": "step", "a": j + 1, "res": f()})
					runtime.Gosched()
				}
				// recorded at the end: a lock in between would order what should race
				mu.Lock()
				r.Events = append(r.Events, evs...)
				mu.Unlock()
			}()
		}
		start.Done()
		wg.Wait()
	}
	return out
}
