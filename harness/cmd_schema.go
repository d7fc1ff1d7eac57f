package main

import (
	"fmt"
	"math/rand"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
)

func init() { commands["schemas"] = cmdSchemas }

type Tree struct {
	Kind     string  `json:"kind"`
	Names    [][]int `json:"names"`
	Nullable bool    `json:"nullable"`
	Kids     []*Tree `json:"kids"`
}

// SchemaTrace is validated by SchemaTrace.tla
type SchemaTrace struct {
	Id     string `json:"id"`
	Tree   *Tree  `json:"tree"`
	Some   []bool `json:"some"`
	Events []Ev   `json:"events"`
	Info   string `json:"info"`
}

type flatCol struct {
	Id       int     `json:"id"`
	Kind     string  `json:"kind"`
	Names    [][]int `json:"names"`
	Children []int   `json:"children"`
}

func nameInts(names []string) [][]int {
	out := [][]int{}
	for _, n := range names {
		out = append(out, ints([]byte(n)))
	}
	return out
}

func flatten(td *api.TypeDescription) ([]flatCol, []bool) {
	out, nulls := []flatCol{}, []bool{}
	var walk func(t *api.TypeDescription)
	walk = func(t *api.TypeDescription) {
		c := flatCol{int(t.Id), kindName(t.Kind), nameInts(t.ChildrenNames), []int{}}
		at := len(out)
		out = append(out, c)
		nulls = append(nulls, t.HasNulls)
		for _, k := range t.Children {
			out[at].Children = append(out[at].Children, int(k.Id))
			walk(k)
		}
	}
	walk(td)
	return out, nulls
}

type shape struct {
	Id    int     `json:"id"`
	Kind  string  `json:"kind"`
	Cells int     `json:"cells"`
	Kids  []shape `json:"kids"`
}

func shapeOf(v *api.ColumnVector) []shape {
	out := []shape{}
	if v == nil {
		return out
	}
	s := shape{Id: int(v.Id), Kind: kindName(v.Kind), Cells: len(v.Vector), Kids: []shape{}}
	if v.Vector == nil {
		s.Cells = -1
	}
	for _, c := range v.Children {
		s.Kids = append(s.Kids, shapeOf(c)...)
	}
	return append(out, s)
}

// randomTree of at most max columns
func randomTree(rnd *rand.Rand, max int) *Tree {
	left := max
	var build func(depth int) *Tree
	build = func(depth int) *Tree {
		left--
		t := &Tree{}
		n := 0
		if depth == 0 || rnd.Intn(3) == 0 && depth < 9 {
			n = 1 + rnd.Intn(6)
		}
		for j := 0; (j < n || depth == 0 && max > 100) && left > 0; j++ { // all of a large one
			t.Kids = append(t.Kids, build(depth+1))
		}
		return t
	}
	return build(0)
}

// dress gives a bare tree kinds, names and nulls
func (t *Tree) dress(rnd *rand.Rand, above bool) {
	t.Names = [][]int{}
	if t.Kids == nil {
		t.Kids = []*Tree{}
	}
	if len(t.Kids) > 0 {
		t.Kind = "struct"
		t.Nullable = !above && rnd.Intn(4) == 0
	} else {
		t.Kind = leafKinds[rnd.Intn(len(leafKinds))]
		t.Nullable = !above && rnd.Intn(2) == 0
	}
	for j, k := range t.Kids {
		n := fieldName(rnd, j)
		switch rnd.Intn(8) {
		case 0:
			n = ""
		case 1:
			n = "_col.0"
		case 2:
			n = fmt.Sprintf("%0*d", 1+rnd.Intn(300), j)
		}
		t.Names = append(t.Names, ints([]byte(n)))
		k.dress(rnd, above || t.Nullable)
	}
}

func (t *Tree) cols(rnd *rand.Rand) []Col {
	var cols []Col
	var walk func(t *Tree, parent int)
	walk = func(t *Tree, parent int) {
		id := len(cols)
		c := Col{Id: id, Parent: parent, Kind: t.Kind, Enc: defaultEnc(t.Kind, rnd), Nullable: t.Nullable, Children: []int{}, Names: []string{}}
		cols = append(cols, c)
		for j, k := range t.Kids {
			b := []byte{}
			for _, x := range t.Names[j] {
				b = append(b, byte(x))
			}
			cols[id].Children = append(cols[id].Children, len(cols))
			cols[id].Names = append(cols[id].Names, string(b))
			walk(k, id)
		}
	}
	walk(t, -1)
	return cols
}

func nodeOf(td *api.TypeDescription, at int) *api.TypeDescription {
	var found *api.TypeDescription
	n := 0
	var walk func(t *api.TypeDescription)
	walk = func(t *api.TypeDescription) {
		if n == at {
			found = t
		}
		n++
		for _, c := range t.Children {
			walk(c)
		}
	}
	walk(td)
	return found
}

func cmdSchemas(p *Plan) interface{} {
	var trees []*Tree
	p.arg(&trees)
	out := []*SchemaTrace{}
	for k := 0; k < len(trees)+p.Count; k++ {
		if !p.mine(k) {
			continue
		}
		seed := p.Seed*86028121 + int64(k)
		rnd := rand.New(rand.NewSource(seed))
		var tree *Tree
		if k < len(trees) {
			tree = trees[k]
		} else {
			tree = randomTree(rnd, 1+rnd.Intn(p.Rows))
		}
		tree.dress(rnd, false)
		cols := tree.cols(rnd)
		c := Case{Seed: seed, Cols: cols, Opts: randomOpts(rnd), Rows: 1 + rnd.Intn(12), Prof: Profile{ShortStr: true}}
		d, _ := c.data()
		t := &SchemaTrace{Id: fmt.Sprintf("schema %d", seed), Tree: tree, Some: make([]bool, len(cols)), Events: []Ev{}, Info: toJson(c)}
		out = append(out, t)
		for i := range cols {
			for r := 0; r < d.N; r++ {
				// cells below a null are none of the column's own
				if d.Cells[i][r][0] == 0 && cols[i].Nullable {
					t.Some[i] = true
				}
			}
		}
		add := func(e Ev) { t.Events = append(t.Events, e) }
		td := schemaFromCols(cols)
		clearIds(td)
		number := func() {
			err := api.NormalizeSchema(td)
			f, _ := flatten(td)
			add(Ev{"op": "numbered", "ok": err == nil, "cols": f})
		}
		vectors := func(s *api.TypeDescription, written bool) {
			for j := 0; j < 5; j++ {
				from := 0
				if rnd.Intn(3) == 0 {
					from = rnd.Intn(len(cols))
				}
				inc := []int{}
				if j > 0 {
					if rnd.Intn(2) == 0 {
						inc = projection(c, rnd.Intn(5))
					}
					for x := range cols {
						if rnd.Intn(4) == 0 {
							inc = append(inc, x)
						}
					}
				}
				if inc == nil {
					inc = []int{}
				}
				rows := 1 + rnd.Intn(20)
				v, err := nodeOf(s, from).CreateVector(&api.BatchOption{RowSize: rows, Includes: u32s(inc)})
				e := Ev{"op": "vector", "from": from, "inc": inc, "rows": rows, "written": written, "shape": shapeOf(v)}
				if err != nil {
					e["op"] = "trouble"
				}
				add(e)
			}
		}
		write := func(disk *Disk) {
			var w orc.Writer
			w, err := orc.VerifNewWriter(td, c.Opts.opts(), disk.Open())
			if err == nil {
				err = w.Write(d.vector(0, d.N))
				if e := w.Close(); err == nil {
					err = e
				}
			}
			f, _ := flatten(td)
			add(Ev{"op": "written", "ok": err == nil, "cols": f})
		}
		read := func(disk *Disk) {
			r, err := orc.VerifNewReader(disk.Open())
			if err != nil {
				add(Ev{"op": "read", "ok": false})
				return
			}
			f, nulls := flatten(r.GetSchema())
			add(Ev{"op": "read", "ok": true, "cols": f, "nulls": nulls})
			vectors(r.GetSchema(), false)
			r.Close()
		}
		if tr := guard(func() {
			number()
			vectors(td, true)
			a, b := NewDisk(nil), NewDisk(nil)
			write(a)
			number()
			other := schemaFromCols(randomCols(rnd, 6, nil))
			if err := api.NormalizeSchema(other); err != nil {
				panic(err)
			}
			write(b)
			read(a)
			read(b)
			vectors(td, true)
		}); tr != "" {
			add(Ev{"op": "trouble", "what": tr})
		}
	}
	return out
}

func clearIds(td *api.TypeDescription) {
	td.Id = 0
	for _, c := range td.Children {
		clearIds(c)
	}
}
