package main

import (
	"errors"

	"verif/harness/spec"
)

// Frozen is serialised by its own methods.
type Frozen struct{ Data string }

func (f Frozen) MarshalBinary() ([]byte, error) { return []byte(f.Data), nil }

// UnmarshalBinary keeps a copy.
func (f *Frozen) UnmarshalBinary(b []byte) error {
	f.Data = string(b)
	return nil
}

// FrozenInt is a number serialised by its own methods.
type FrozenInt uint32

func (f FrozenInt) MarshalBinary() ([]byte, error) {
	return []byte{'i', byte(f), byte(f >> 8), byte(f >> 16), byte(f >> 24)}, nil
}

// UnmarshalBinary reads it back.
func (f *FrozenInt) UnmarshalBinary(b []byte) error {
	if len(b) != 5 || b[0] != 'i' {
		return errors.New("not a FrozenInt")
	}
	*f = FrozenInt(uint32(b[1]) | uint32(b[2])<<8 | uint32(b[3])<<16 | uint32(b[4])<<24)
	return nil
}

// FrozenSlice is a slice serialised by its own methods.
type FrozenSlice []string

func (f FrozenSlice) MarshalBinary() ([]byte, error) {
	b := []byte{'s'}
	for _, s := range f {
		b = append(b, byte(len(s)))
		b = append(b, s...)
	}
	return b, nil
}

// UnmarshalBinary reads it back.
func (f *FrozenSlice) UnmarshalBinary(b []byte) error {
	if len(b) == 0 || b[0] != 's' {
		return errors.New("not a FrozenSlice")
	}
	*f = FrozenSlice{}
	for b = b[1:]; len(b) > 0; {
		n := int(b[0])
		if len(b) < 1+n {
			return errors.New("truncated")
		}
		*f = append(*f, string(b[1:1+n]))
		b = b[1+n:]
	}
	return nil
}

func frozenLeaf(g *spec.GoGen) any {
	switch spec.N(g.T, 0, 2) {
	case 0:
		return Frozen{g.Str()}
	case 1:
		return FrozenInt(spec.AnyUint(g.T))
	}
	var f FrozenSlice
	for i := spec.N(g.T, 0, 3); i > 0; i-- {
		f = append(f, spec.One(g.T, "", "x", "foo"))
	}
	return f
}
