// Package gotree is a stand-in for github.com/DiSiqueira/GoTree.
package gotree

import "strings"

// GTStructure is a node of a tree
type GTStructure struct {
	Name  string
	Items []*GTStructure
}

// Observe sees every rendered tree, if it's not nil
var Observe func(o *GTStructure)

// StringTree renders the tree
func StringTree(o *GTStructure) (s string) {
	if Observe != nil {
		Observe(o)
	}
	s = o.Name + "\n"
	var w strings.Builder
	w.WriteString(s)
	items(&w, o.Items, "")
	return w.String()
}

func items(w *strings.Builder, is []*GTStructure, pref string) {
	for i, it := range is {
		var a, b = "├── ", "│   "
		if i == len(is)-1 {
			a, b = "└── ", "    "
		}
		w.WriteString(pref + a + it.Name + "\n")
		items(w, it.Items, pref+b)
	}
}
