package main

import (
	"math"
	"strconv"
)

func init() {
	reg("internal/strconv.float64bits", func(in *Interp, fr *Frame, a []Value) Value { return math.Float64bits(a[0].(float64)) })
	reg("internal/strconv.float64frombits", func(in *Interp, fr *Frame, a []Value) Value {
		return math.Float64frombits(in.concInt(a[0], 64))
	})
	reg("internal/strconv.float32bits", func(in *Interp, fr *Frame, a []Value) Value {
		return uint64(math.Float32bits(float32(a[0].(float64))))
	})
	reg("internal/strconv.float32frombits", func(in *Interp, fr *Frame, a []Value) Value {
		return float64(math.Float32frombits(uint32(in.concInt(a[0], 32))))
	})
	fmtF := func(in *Interp, f, c, p, b Value) string {
		return strconv.FormatFloat(f.(float64), byte(in.concInt(c, 8)), int(in.concInt(p, 64)), int(in.concInt(b, 64)))
	}
	reg("strconv.FormatFloat internal/strconv.FormatFloat", func(in *Interp, fr *Frame, a []Value) Value { return fmtF(in, a[0], a[1], a[2], a[3]) })
	reg("strconv.AppendFloat internal/strconv.AppendFloat", func(in *Interp, fr *Frame, a []Value) Value {
		return Slice(append(append([]Value(nil), a[0].(Slice)...), strBytes(fmtF(in, a[1], a[2], a[3], a[4]))...))
	})
	reg("strconv.ParseFloat", func(in *Interp, fr *Frame, a []Value) Value {
		if s, ok := a[0].(string); ok {
			f, err := strconv.ParseFloat(s, int(in.concInt(a[1], 64)))
			if err == nil {
				return Tuple{f, Iface{}}
			}
		}
		return in.callBody(fr, "strconv", "ParseFloat", a)
	})
}
