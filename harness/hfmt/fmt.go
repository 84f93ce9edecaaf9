// Package hfmt holds the harness about the hclfmt command.
package hfmt

import (
	"bytes"

	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/hashicorp/hcl2/zzverif/hfmt/tool"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
)

var docs = []string{"a = 1\n", "a {\nb=1\n}\n", "a = [1,\n 2]\n", "", "a=\n"}

// Command: what the command prints and reports.
func Command() {
	var srcs [][]byte
	check, inPlace := sym.Bool(), sym.Bool()
	var want []byte
	bad, problems := false, 0
	var changed []string
	for i := 0; i < sym.Param("files", 2); i++ {
		var src []byte
		if i == 0 {
			src = lib.Mutate(docs, "a=1 {\n")
		} else {
			src = []byte(docs[sym.Choice(len(docs))])
		}
		sym.ObserveBytes("source", src)
		srcs = append(srcs, append([]byte(nil), src...))
		if check {
			_, d := hclsyntax.ParseConfig(src, "t.hcl", lib.Start)
			problems += len(d)
			if d.HasErrors() {
				bad = true
				if inPlace { // the file stays as it is
					want = append(want, src...)
				}
				continue
			}
		}
		f := hclwrite.Format(src)
		if !bytes.Equal(f, src) {
			changed = append(changed, string([]byte{byte('a' + i)}))
			sym.Cover("changed")
		}
		want = append(want, f...)
	}
	out, n, failed, names := tool.Format(srcs, check, inPlace)
	sym.ObserveBytes("out", out)
	sym.Assert(bytes.Equal(out, want), "exactly the formatted sources are printed or written")
	sym.Assert(failed == bad && n == problems, "exactly the problems of the sources are reported")
	sym.Assert(len(names) == len(changed), "exactly the changed sources are named")
	for i := range names {
		sym.Assert(names[i] == changed[i], "the changed sources are named")
	}
	if bad {
		sym.Cover("problems")
	}
}
