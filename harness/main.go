package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"math/rand"
	"os"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/column"
	"github.com/patrickhuang888/goorc/orc/common"
	"github.com/patrickhuang888/goorc/orc/encoding"
	orcio "github.com/patrickhuang888/goorc/orc/io"
	"github.com/patrickhuang888/goorc/orc/stream"
	"github.com/sirupsen/logrus"
)

// Trace is validated by OrcFileTrace
type Trace struct {
	Id     string   `json:"id"`
	N      int      `json:"n"`
	Cols   [][]Cell `json:"cols"`
	Vec    []bool   `json:"vec"`
	Events []Ev     `json:"events"`
	Info   string   `json:"info"` // how to make it again, as JSON
	Wins   []Win    `json:"wins,omitempty"`
}

// Win are the cells of some rows, of files that are too long to list all of them
type Win struct {
	From int      `json:"from"`
	Cols [][]Cell `json:"cols"`
}

func silence() {
	logrus.SetOutput(ioutil.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	orc.SetLogLevel(logrus.PanicLevel)
	column.SetLogLevel(logrus.PanicLevel)
	stream.SetLogLevel(logrus.PanicLevel)
	encoding.SetLogLevel(logrus.PanicLevel)
	common.SetLogLevel(logrus.PanicLevel)
	orcio.SetLogLevel(logrus.PanicLevel)
	log.SetOutput(ioutil.Discard)
}

// Plan is what the runner asks for
type Plan struct {
	Cmd      string          `json:"cmd"`
	Seed     int64           `json:"seed"`
	Count    int             `json:"count"`
	Rows     int             `json:"rows"`
	Thorough bool            `json:"thorough"`
	Out      string          `json:"out"`
	Arg      json.RawMessage `json:"arg"`
	ArgFile  string          `json:"argfile"`
	Shard    int             `json:"shard"`
	Shards   int             `json:"shards"`
}

// mine says whether case k is for this process
func (p *Plan) mine(k int) bool { return p.Shards < 2 || k%p.Shards == p.Shard }

func (p *Plan) arg(v interface{}) {
	b := []byte(p.Arg)
	if p.ArgFile != "" {
		var err error
		if b, err = ioutil.ReadFile(p.ArgFile); err != nil {
			fatal(err)
		}
	}
	if err := json.Unmarshal(b, v); err != nil {
		fatal(err)
	}
}

func fatal(v ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"driver:"}, v...)...)
	os.Exit(2)
}

func (p *Plan) rnd(salt int64) *rand.Rand { return rand.New(rand.NewSource(p.Seed*1000003 + salt)) }

func writeJson(path string, v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		fatal(err)
	}
	if err = ioutil.WriteFile(path, b, 0644); err != nil {
		fatal(err)
	}
}

var commands = map[string]func(p *Plan) interface{}{}

func main() {
	silence()
	var p Plan
	if err := json.Unmarshal([]byte(os.Args[1]), &p); err != nil {
		fatal(err)
	}
	c := commands[p.Cmd]
	if c == nil {
		fatal("no command " + p.Cmd)
	}
	writeJson(p.Out, c(&p))
}
