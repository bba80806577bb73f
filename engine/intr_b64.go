package main

// encoding/base64: what was encoded on this path decodes to the same bytes. Everything else (other texts, concrete
// values) is interpreted from source.

import (
	"fmt"
	"go/types"
)

type b64Key struct {
	enc Value
	s   string
}

func (in *Interp) symKey(v Value) string {
	k := ""
	for _, b := range strBytes(v) {
		switch b := b.(type) {
		case *Term:
			k += fmt.Sprintf("t%d,", b.id)
		default:
			k += fmt.Sprintf("%v,", b)
		}
	}
	return k
}

func init() {
	const enc = "(*encoding/base64.Encoding)."
	body := func(in *Interp, fr *Frame, name string, a []Value) Value {
		return in.callCode(fr, in.eng.method(in.eng.canon(types.NewPointer(in.eng.namedType("encoding/base64", "Encoding"))), nil, name), a, nil)
	}
	reg(enc+"EncodeToString", func(in *Interp, fr *Frame, a []Value) Value {
		r := body(in, fr, "EncodeToString", a)
		if _, ok := r.(*SymStr); ok && in.path != nil {
			in.path.side[b64Key{a[0], in.symKey(r)}] = append(Slice(nil), a[1].(Slice)...)
		}
		return r
	})
	reg(enc+"DecodeString", func(in *Interp, fr *Frame, a []Value) Value {
		if _, ok := a[1].(*SymStr); ok && in.path != nil {
			if b, ok := in.path.side[b64Key{a[0], in.symKey(a[1])}]; ok {
				return Tuple{Value(append(Slice(nil), b.(Slice)...)), Iface{}}
			}
		}
		return body(in, fr, "DecodeString", a)
	})
}
