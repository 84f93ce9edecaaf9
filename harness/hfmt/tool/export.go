// Package tool is the source of the hclfmt command.
package tool

import (
	"io/ioutil"
	"os"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hclparse"
)

func exit(code int) { panic(code) }

type discard struct{ n int }

func (d *discard) WriteDiagnostic(diag *hcl.Diagnostic) error { d.n++; return nil }

func (d *discard) WriteDiagnostics(diags hcl.Diagnostics) error { d.n += len(diags); return nil }

// Format runs the command on the given sources. It returns the output, how
// many problems were reported, and the sources that were changed. In place, the
// output is that of all the files afterwards.
func Format(srcs [][]byte, checked, inPlace bool) (out []byte, problems int, failed bool, names []string) {
	*check, *overwrite = checked, inPlace
	checkErrs = false
	changed = nil
	parser = hclparse.NewParser()
	d := &discard{}
	diagWr = d
	r, w := pipe()
	old := os.Stdout
	os.Stdout = w
	defer func() { os.Stdout = old }()
	if inPlace {
		b, names := files(srcs)
		w.Close()
		out, _ = ioutil.ReadAll(r) // nothing
		r.Close()
		return append(out, b...), d.n, checkErrs, names
	}
	for i, src := range srcs {
		ir, iw := pipe()
		iw.Write(src)
		iw.Close()
		if err := processFile(string([]byte{byte('a' + i)}), ir); err != nil {
			panic(err)
		}
		ir.Close()
	}
	w.Close()
	out, _ = ioutil.ReadAll(r)
	r.Close()
	return out, d.n, checkErrs, changed
}

func pipe() (r, w *os.File) {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	return r, w
}

func files(srcs [][]byte) (out []byte, names []string) {
	dir, err := ioutil.TempDir("", "verif-fmt-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for i, src := range srcs {
		fn := dir + "/" + string([]byte{byte('a' + i)})
		if err := ioutil.WriteFile(fn, src, 0600); err != nil {
			panic(err)
		}
		if err := processFile(fn, nil); err != nil {
			panic(err)
		}
		b, err := ioutil.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		out = append(out, b...)
	}
	for _, n := range changed {
		names = append(names, n[len(dir)+1:])
	}
	return out, names
}
