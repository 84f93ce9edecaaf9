// Package tool is the source of the hcldec command.
package tool

import (
	"bytes"
	"io/ioutil"
	"os"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hclparse"
)

type exitCode int

func exit(code int) { panic(exitCode(code)) }

// VarFile is a file that can be given as an argument with variables.
var VarFile *hcl.File

// Run runs the command for the given specification and input files, which are
// already parsed. It returns the exit status, the output and what the
// diagnostics writer was given.
func Run(spec *hcl.File, inputs []*hcl.File, varArgs []string, types, refs bool) (code int, out, diags []byte) {
	parser = hclparse.NewParser()
	parser.AddFile("spec", spec)
	var args []string
	for i, f := range inputs {
		n := "in" + string([]byte{byte('0' + i)})
		parser.AddFile(n, f)
		args = append(args, n)
	}
	if VarFile != nil {
		parser.AddFile("vars", VarFile)
		VarFile = nil
	}
	*specFile = "spec"
	*withType, *showVarRefs = types, refs
	*vars = varSpecs(varArgs)
	var d bytes.Buffer
	diagWr = &jsonDiagWriter{w: &d}
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = w
	code = run(args)
	os.Stdout = old
	w.Close()
	out, _ = ioutil.ReadAll(r)
	r.Close()
	return code, out, d.Bytes()
}

func run(args []string) (code int) {
	defer func() {
		if r := recover(); r != nil {
			c, ok := r.(exitCode)
			if !ok {
				panic(r)
			}
			code = int(c)
		}
	}()
	if err := realmain(args); err != nil {
		return 1
	}
	return 0
}
