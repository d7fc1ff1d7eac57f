package main

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
)

func init() {
	commands["handles"] = cmdHandles
	commands["whandles"] = cmdWriterHandles
}

// descriptors of this process that refer to a path
func descriptors(path string) (n int) {
	es, err := ioutil.ReadDir("/proc/self/fd")
	if err != nil {
		fatal(err)
	}
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && l == path {
			n++
		}
	}
	return
}

// handleEvents: what HandlesTrace looks at
func handleEvents(evs []Ev) (out []Ev) {
	last := 0
	for _, e := range evs {
		x := Ev{"op": e["op"]}
		switch e["op"] {
		case "fs":
			if e["what"] == "open" {
				last = e["h"].(int)
			}
			x = e
		case "create", "next", "seek", "close":
			x["r"] = fmt.Sprint("b", e["r"])
		case "fds":
			x["n"] = e["n"]
		case "trouble":
			x["what"] = e["what"]
		}
		if ok, has := e["ok"]; has {
			x["ok"] = ok
		}
		out = append(out, x)
		if x["ok"] == false && (e["op"] == "wcreate" || e["op"] == "open") {
			out = append(out, Ev{"op": "failed", "h": last})
		}
	}
	return
}

// cmdHandles runs call histories like cmdSessions does and records the file operations
func cmdHandles(p *Plan) interface{} {
	var a SessArg
	p.arg(&a)
	if a.Os {
		defer os.RemoveAll(scratch(p))
	}
	out := []*Trace{}
	for n, q := range a.Seqs {
		if !p.mine(n) {
			continue
		}
		l := a.Layouts[q.F-1]
		c := l.Case
		d, _ := c.data()
		rnd := rand.New(rand.NewSource(c.Seed*19 + int64(n)))
		disk := NewDisk(nil)
		path := ""
		if a.Os {
			path = scratch(p) + fmt.Sprintf("/%d.orc", n)
			disk.path = path
		}
		evs, ok := writeFileFs(d, c.Opts, c.Batches, disk, true)
		t := newTrace(fmt.Sprintf("handles %d of file %d", n, c.Seed), d, c)
		t.Cols, t.Vec = [][]Cell{}, []bool{}
		out = append(out, t)
		fds := func() {
			if path != "" {
				evs = append(evs, Ev{"op": "fds", "n": descriptors(path)})
			}
		}
		fds()
		if ok {
			s := newSession(disk, rnd)
			s.fs, s.fsAt = true, len(disk.events)
			disk.counts = map[string]int{}
			if path == "" && rnd.Intn(3) == 0 {
				class := []string{"read", "seek", "clone", "size", "close"}[rnd.Intn(5)]
				disk.fault = &Fault{Class: class, K: 1 + rnd.Intn(40), Mode: "err", On: rnd.Intn(4) == 0}
				t.Id += " " + toJson(disk.fault)
			}
			s.open()
			for _, o := range q.Ops {
				s.do(Op{Op: o.Op, R: o.R, Cap: o.Cap, K: o.K, Inc: projection(c, o.Inc)})
				if rnd.Intn(12) == 0 && s.r != nil && !s.rclosed { // refused: nothing may stay open
					bad := []int{len(c.Cols) + 3}
					s.do(Op{Op: "create", R: 7, Inc: bad})
				}
			}
			if rnd.Intn(2) == 0 { // the reader first
				s.do(Op{Op: "closereader"})
			}
			s.closeAll()
			evs = append(evs, s.evs...)
			fds()
		}
		if path != "" {
			os.Remove(path)
		}
		t.Events = handleEvents(evs)
	}
	return out
}

// cmdWriterHandles: writers whose file fails; files that are no ORC files; bad options; all with descriptors
func cmdWriterHandles(p *Plan) interface{} {
	dir := scratch(p)
	defer os.RemoveAll(dir)
	out := []*Trace{}
	for k := 0; k < p.Count; k++ {
		if !p.mine(k) {
			continue
		}
		seed := p.Seed*6972593 + int64(k)
		c, rnd := smallCase(seed, k, p.Rows)
		d, _ := c.data()
		probe := NewDisk(nil)
		writeFile(d, c.Opts, c.Batches, probe)
		add := func(id string, evs []Ev) {
			t := newTrace(fmt.Sprintf("writer handles %d %s", seed, id), d, c)
			t.Cols, t.Vec = [][]Cell{}, []bool{}
			t.Events = handleEvents(evs)
			out = append(out, t)
		}
		for _, class := range []string{"write", "close"} {
			n := probe.counts[class]
			for j := 0; j < 6; j++ {
				disk := NewDisk(nil)
				disk.fault = &Fault{Class: class, K: 1 + rnd.Intn(n), Mode: []string{"err", "partial", "short"}[rnd.Intn(3)], On: rnd.Intn(2) == 0}
				evs, _ := writeFileFs(d, c.Opts, c.Batches, disk, true)
				add(toJson(disk.fault), evs)
			}
		}
		// real files that cannot be written or read
		path := filepath.Join(dir, fmt.Sprintf("%d.orc", k))
		check := func(id string, f func() error) {
			var err error
			evs := []Ev{}
			if t := guard(func() { err = f() }); t != "" {
				evs = append(evs, Ev{"op": "trouble", "what": t})
			}
			evs = append(evs, Ev{"op": "open", "ok": err == nil})
			if err == nil {
				evs = append(evs, Ev{"op": "closereader"})
			}
			add(id, append(evs, Ev{"op": "fds", "n": descriptors(path)}))
		}
		bad := probe.data[:rnd.Intn(len(probe.data))]
		if err := ioutil.WriteFile(path, bad, 0644); err != nil {
			fatal(err)
		}
		check("prefix", func() error {
			r, err := orc.NewOSFileReader(path)
			if err == nil {
				r.Close()
			}
			return err
		})
		o := c.Opts.opts()
		switch k % 3 {
		case 0:
			o.ChunkSize = 1 << 30
		case 1:
			o.WriteIndex, o.IndexStride = true, -1
		}
		schema := schemaFromCols(d.Cols)
		if k%3 == 2 {
			schema = &api.TypeDescription{Id: 5, Kind: schema.Kind, Children: schema.Children, ChildrenNames: schema.ChildrenNames}
		}
		check("refused writer", func() error {
			w, err := orc.NewOSFileWriter(path, schema, o)
			if err == nil {
				w.Close()
			}
			return err
		})
		os.Remove(path)
	}
	return out
}
