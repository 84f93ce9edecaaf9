// Package spectool is the source of the hcldec command without its main
// function.
package spectool

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hclparse"
)

var parser = hclparse.NewParser()

// Load reads a specification file the way the command does.
func Load(f *hcl.File) (specFileContent, hcl.Diagnostics) {
	parser.AddFile("spec", f)
	return loadSpecFile("spec")
}
