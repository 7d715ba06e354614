package main

import (
	"fmt"
	"math/rand"

	"verif/kit"
	"verif/refsm"

	"github.com/skycoin/cxo/skyobject/registry"
)

// list: a list with changes not saved yet is walked
func list(k *kit.K, r *rand.Rand) {
	var e = refsm.NewE(r, 6)
	e.SetPack()
	var l = e.New()
	for i := 5 + r.Intn(15); i > 0 && e.Failed() == nil; i-- {
		l.Op()
	}
	if e.Failed() != nil {
		return // of C14
	}
	if len(l.M) == 0 {
		return
	}
	var got []H
	var els []H
	var err error
	if !k.Guard("list-panic", e.Case(), func() {
		err = l.R.Walk(e.P, nil, func(h H, d int) (bool, error) {
			if d == 0 {
				els = append(els, h)
				return false, nil
			}
			got = append(got, h)
			return true, nil
		})
	}) {
		return
	}
	if err != nil {
		k.Violate("list", e.Case(), "the walk fails: %v", err)
		return
	}
	if fmt.Sprint(els) != fmt.Sprint(l.M) {
		k.Violate("list", e.Case(), "elements %v, want %v", els, l.M)
		return
	}
	if l.R.Flags()&registry.LazyUpdating != 0 {
		k.Count("lists_updated", 1)
	}
	// the hash and the nodes are of the current content
	var nodes = e.Nodes(l.R.Hash)
	if count(nodes) != count(got) {
		k.Violate("list", e.Case(), "visited nodes %v, stored nodes %v", got, nodes)
	}
	k.Case(len(els) > 2, e.Case())
}

func count(hs []H) string {
	var s = append([]H(nil), hs...)
	sortH(s)
	return fmt.Sprint(s)
}
