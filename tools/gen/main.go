// gen writes forwarding shims for standard packages (development-time tool).
package main

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"os"
	"strings"
)

func main() {
	path := os.Args[1]
	skip := map[string]bool{}
	for _, s := range os.Args[2:] {
		skip[s] = true
	}
	p, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(path)
	if err != nil {
		panic(err)
	}
	name := p.Name()
	fmt.Printf("// Code generated by /verif/tools/gen. DO NOT EDIT.\n\npackage %s\n\nimport std %q\n\n", name, path)
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() || skip[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Printf("const %s = std.%s\n", n, n)
		case *types.Var:
			fmt.Printf("var %s = std.%s\n", n, n)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Printf("type %s = std.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Printf("var %s = std.%s\n", n, n)
		}
	}
	_ = strings.ToLower
}
