package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"sort"
	"strings"
)

func parserParse(s string) (ast.Expr, error) { return parser.ParseExpr(s) }

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gvc check|ssa|fn ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		checkCmd(os.Args[2:])
	case "replay":
		replayCmd(os.Args[2:])
	case "ssa":
		w, err := loadWorld("/repo/src")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for n, f := range w.fns {
			if strings.Contains(n, os.Args[2]) {
				f.WriteTo(os.Stdout)
			}
		}
	case "fns":
		w, err := loadWorld("/repo/src")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var ns []string
		for n := range w.fns {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			fmt.Println(n)
		}
	}
}
