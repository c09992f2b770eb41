// Command genzoo writes zoo/generated.go: random struct types with fixed seed.
package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"strings"
)

func main() {
	r := rand.New(rand.NewPCG(20240607, 99))
	var sb strings.Builder
	sb.WriteString("// Code generated by cmd/genzoo; DO NOT EDIT.\n\npackage zoo\n\nimport (\n\t\"encoding/json\"\n\t\"time\"\n)\n\n")
	basics := []string{"bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "string",
		"[]byte", "interface{}", "json.Number", "json.RawMessage", "time.Time", "time.Duration", "MyString", "MyInt", "MJ", "PMJ", "MT", "PMT", "MTInt",
		"map[string]int", "map[string]interface{}", "[]string", "[]int", "[2]bool", "*int", "*string", "**int8", "map[int]string", "Shape", "[]interface{}", "struct{}", "map[string]json.RawMessage", "[1]*int", "error"}
	names := []string{"A", "B", "C", "D", "E", "F", "G", "H", "X", "Y"}
	tags := []string{"a", "b", "c", "A", "B", "x", "X", "name", "y", "<&>", "é"}
	const n = 170
	tname := func(i int) string {
		if i%3 == 2 {
			return fmt.Sprintf("g%03d", i)
		}
		return fmt.Sprintf("G%03d", i)
	}
	var exported []string
	for i := 0; i < n; i++ {
		fmt.Fprintf(&sb, "type %s struct {\n", tname(i))
		used := map[string]bool{}
		nf := 1 + r.IntN(6)
		for j := 0; j < nf; j++ {
			k := r.IntN(10)
			tag := ""
			switch r.IntN(8) {
			case 0, 1:
				tag = tags[r.IntN(len(tags))]
			case 2:
				tag = tags[r.IntN(len(tags))] + ",omitempty"
			case 3:
				tag = ",omitempty"
			case 4:
				tag = ",string"
			case 5:
				if r.IntN(3) == 0 {
					tag = "-"
				}
			}
			tagS := ""
			if tag != "" {
				tagS = fmt.Sprintf(" `json:%q`", tag)
			}
			if k < 4 && i > 3 { // embed
				t := r.IntN(i)
				nm := tname(t)
				if used[nm] {
					continue
				}
				used[nm] = true
				star := ""
				if r.IntN(3) == 0 {
					star = "*"
				}
				if r.IntN(4) != 0 {
					tagS = ""
				}
				fmt.Fprintf(&sb, "\t%s%s%s\n", star, nm, tagS)
				continue
			}
			nm := names[r.IntN(len(names))]
			if r.IntN(12) == 0 {
				nm = strings.ToLower(nm)
			}
			if used[nm] {
				continue
			}
			used[nm] = true
			ty := basics[r.IntN(len(basics))]
			if r.IntN(5) == 0 && i > 3 {
				ty = tname(r.IntN(i))
				switch r.IntN(5) {
				case 0:
					ty = "*" + ty
				case 1:
					ty = "[]" + ty
				case 2:
					ty = "map[string]" + ty
				case 3:
					ty = "[]*" + ty
				}
			}
			if r.IntN(25) == 0 {
				ty = "*" + tname(i)
			}
			fmt.Fprintf(&sb, "\t%s %s%s\n", nm, ty, tagS)
		}
		sb.WriteString("}\n\n")
		exported = append(exported, tname(i))
	}
	sb.WriteString("// Generated returns one zero value of each generated type.\nfunc Generated() []interface{} {\n\treturn []interface{}{\n")
	for _, e := range exported {
		fmt.Fprintf(&sb, "\t\t%s{},\n", e)
	}
	sb.WriteString("\t}\n}\n\nvar _ = time.Now\nvar _ json.Number\n")
	if err := os.WriteFile(os.Args[1], []byte(sb.String()), 0o644); err != nil {
		panic(err)
	}
}
