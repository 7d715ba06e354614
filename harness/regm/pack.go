// Package regm has models and generators for checks of the skyobject/registry
package regm

import (
	"errors"
	"sync"

	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
)

// ErrMissing is returned by the Pack for objects it has not got
var ErrMissing = errors.New("regm: no such object")

// Pack is registry.Pack over a map
type Pack struct {
	Reg *registry.Registry
	Deg registry.Degree
	Fl  registry.Flags

	mx     sync.Mutex
	M      map[cipher.SHA256][]byte
	Broken map[cipher.SHA256]error // errors of Get
	Gets   int
	Sets   int
	BadSet bool // Set with a hash that is not hash of the value
}

// NewPack with given registry
func NewPack(reg *registry.Registry) *Pack {
	return &Pack{Reg: reg, Deg: 16, M: make(map[cipher.SHA256][]byte),
		Broken: make(map[cipher.SHA256]error)}
}

// Registry of the Pack
func (p *Pack) Registry() *registry.Registry { return p.Reg }

// Get value
func (p *Pack) Get(key cipher.SHA256) (val []byte, err error) {
	p.mx.Lock()
	defer p.mx.Unlock()
	p.Gets++
	if err = p.Broken[key]; err != nil {
		return
	}
	var ok bool
	if val, ok = p.M[key]; !ok {
		return nil, ErrMissing
	}
	return append([]byte(nil), val...), nil
}

// Set value
func (p *Pack) Set(key cipher.SHA256, val []byte) (err error) {
	p.mx.Lock()
	defer p.mx.Unlock()
	p.Sets++
	if cipher.SumSHA256(val) != key {
		p.BadSet = true
	}
	p.M[key] = append([]byte(nil), val...)
	return
}

// Add value
func (p *Pack) Add(val []byte) (key cipher.SHA256, err error) {
	key = cipher.SumSHA256(val)
	return key, p.Set(key, val)
}

// Degree of new Refs
func (p *Pack) Degree() registry.Degree { return p.Deg }

// SetDegree of new Refs
func (p *Pack) SetDegree(d registry.Degree) (err error) {
	if err = d.Validate(); err == nil {
		p.Deg = d
	}
	return
}

// Flags of the Pack
func (p *Pack) Flags() registry.Flags { return p.Fl }

// AddFlags to the Pack
func (p *Pack) AddFlags(f registry.Flags) { p.Fl |= f }

// ClearFlags of the Pack
func (p *Pack) ClearFlags(f registry.Flags) { p.Fl &^= f }
