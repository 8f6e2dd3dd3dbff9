// Prints package, types and fields of one Go source file as JSON, after parsing and type checking it.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
)

type field struct {
	Name string `json:"name"`
	Type string `json:"type"`
}

type result struct {
	Package string             `json:"package"`
	Errors  []string           `json:"errors"`
	Types   map[string][]field `json:"types"`
	Order   []string           `json:"order"`
	Other   int                `json:"other"`
}

func main() {
	res := result{Types: map[string][]field{}, Errors: []string{}, Order: []string{}}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], nil, parser.AllErrors|parser.SkipObjectResolution)
	if err != nil {
		res.Errors = append(res.Errors, err.Error())
	} else {
		res.Package = f.Name.Name
		conf := types.Config{Error: func(e error) { res.Errors = append(res.Errors, e.Error()) }}
		pkg, _ := conf.Check(f.Name.Name, fset, []*ast.File{f}, nil)
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.TYPE {
				res.Other++
				continue
			}
			for _, s := range g.Specs {
				name := s.(*ast.TypeSpec).Name.Name
				res.Order = append(res.Order, name)
				fields := []field{}
				if o := pkg.Scope().Lookup(name); o != nil {
					st, ok := o.Type().Underlying().(*types.Struct)
					if !ok {
						res.Other++
						continue
					}
					for i := 0; i < st.NumFields(); i++ {
						fields = append(fields, field{st.Field(i).Name(), types.TypeString(st.Field(i).Type(), func(*types.Package) string { return "" })})
					}
				}
				res.Types[name] = fields
			}
		}
	}
	if len(res.Errors) > 20 {
		res.Errors = res.Errors[:20]
	}
	json.NewEncoder(os.Stdout).Encode(res)
}
