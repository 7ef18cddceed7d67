//go:build cliapp

package main

// The command line program, run inside this process. run.sh lays a copy of it
// under an importable name over the repository.

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"path/filepath"
	"sort"

	rapio "github.com/recolude/rap/format/io"

	cliapp "github.com/recolude/rap/cmd/rapmoncliapp"
)

func init() { cliOps = addCLIOps }

func runApp(in io.Reader, args ...string) ([]byte, error) {
	var out, errs bytes.Buffer
	err := cliapp.BuildApp(in, &out, &errs).Run(append([]string{"rap-cli"}, args...))
	return out.Bytes(), err
}

func addCLIOps(w *world, in concInput, dir string) {
	add := func(kind string, f func(r *rand.Rand) string) { w.ops = append(w.ops, concOp{"cli-" + kind, f}) }
	loaded := func(b []byte, err error) string {
		if err != nil {
			return "error"
		}
		return digest(first(rapio.Load(bytes.NewReader(b))))
	}
	for i := range append(append([][]byte{}, in.files...), in.v1...) {
		p := filepath.Join(dir, fmt.Sprintf("in%d.rap", i))
		add("to-json", func(r *rand.Rand) string { return normalJSON(runApp(nil, "to-json", "--file", p)) })
		add("summarize", func(r *rand.Rand) string {
			b, err := runApp(nil, "summarize", "--file", p)
			return fmt.Sprint(string(b), err)
		})
	}
	for i := range in.v1 {
		p := filepath.Join(dir, fmt.Sprintf("in%d.rap", i+len(in.files)))
		add("upgrade", func(r *rand.Rand) string { return loaded(runApp(nil, "upgrade", "--file", p)) })
	}
	for _, d := range in.docs {
		d := d
		add("from-json", func(r *rand.Rand) string { return loaded(runApp(&lazySource{d, r}, "from-json")) })
	}
	add("from-csv", func(r *rand.Rand) string {
		b, err := runApp(nil, "from-csv", "--file", filepath.Join(dir, "in.csv"))
		if err != nil {
			return "error"
		}
		rec, _, err := rapio.Load(bytes.NewReader(b))
		if err != nil {
			return "broken"
		}
		m, err := snap(rec)
		if err != nil {
			return "broken"
		}
		// The order of the children is not defined.
		sort.Slice(m.Recs, func(i, j int) bool { return m.Recs[i].Canon() < m.Recs[j].Canon() })
		return m.Canon()
	})
}
