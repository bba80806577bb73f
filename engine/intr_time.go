package main

import (
	"go/types"
	"golang.org/x/tools/go/ssa"
)

func fieldIdx(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic(unsupported("no field %s in %s", name, t))
}

func (in *Interp) timeNow(fr *Frame) Value {
	var ns int64 = 1600000000 * 1e9
	if in.path != nil {
		ns = in.path.sched.now
	}
	t := in.callFn(fr, in.eng.funcByName("time", "Unix"), []Value{uint64(ns / 1e9), uint64(ns % 1e9)}, nil)
	return t
}

func init() {
	reg("time.Now", func(in *Interp, fr *Frame, a []Value) Value { return in.timeNow(fr) })
	reg("time.runtimeNano runtime.nanotime time.runtimeNow", func(in *Interp, fr *Frame, a []Value) Value { return uint64(1) })
	reg("time.now", func(in *Interp, fr *Frame, a []Value) Value { return Tuple{uint64(1600000000), uint64(0), uint64(1)} })
	reg("time.Since", func(in *Interp, fr *Frame, a []Value) Value {
		f := in.eng.method(in.eng.namedType("time", "Time"), nil, "Sub")
		return in.callFn(fr, f, []Value{in.timeNow(fr), a[0]}, nil)
	})
	reg("time.Until", func(in *Interp, fr *Frame, a []Value) Value {
		f := in.eng.method(in.eng.namedType("time", "Time"), nil, "Sub")
		return in.callFn(fr, f, []Value{a[0], in.timeNow(fr)}, nil)
	})
	reg("time.initLocal", func(in *Interp, fr *Frame, a []Value) Value { return nil })
	globalOverride["time.localLoc"] = func(in *Interp, g *ssa.Global) Value {
		return zero(g.Type().Underlying().(*types.Pointer).Elem())
	}
	reg("time.Sleep", func(in *Interp, fr *Frame, a []Value) Value {
		s := in.path.sched
		g := s.cur
		d := int64(in.concInt(a[0], 64))
		fired := false
		s.addTimer(d, func() { fired = true; s.wake(g) }, g)
		in.park(g, func() bool { return fired }, footprint{what: "sleep"}, "time.Sleep")
		return nil
	})
	newTimer := func(in *Interp, fr *Frame, d int64, period int64, tname string) Value {
		s := in.path.sched
		tt := in.eng.namedType("time", tname)
		p := new(Value)
		*p = zero(tt)
		ch := in.newChan(1)
		(*p).(Struct)[fieldIdx(tt, "C")] = ch
		var arm func(d int64)
		arm = func(d int64) {
			in.path.side[p] = s.addTimer(d, func() {
				if hasWaiter(ch.recvq) || len(ch.buf) < 1 {
					in.trySend(ch, in.timeNow(nil))
				}
				if period > 0 {
					arm(period)
				}
			}, p)
		}
		in.path.side[timerKey{p}] = arm
		arm(d)
		return p
	}
	reg("time.NewTimer", func(in *Interp, fr *Frame, a []Value) Value {
		return newTimer(in, fr, int64(in.concInt(a[0], 64)), 0, "Timer")
	})
	reg("time.NewTicker", func(in *Interp, fr *Frame, a []Value) Value {
		d := int64(in.concInt(a[0], 64))
		return newTimer(in, fr, d, d, "Ticker")
	})
	reg("time.After", func(in *Interp, fr *Frame, a []Value) Value {
		p := newTimer(in, fr, int64(in.concInt(a[0], 64)), 0, "Timer").(Ptr)
		return (*p).(Struct)[fieldIdx(in.eng.namedType("time", "Timer"), "C")]
	})
	reg("time.Tick", func(in *Interp, fr *Frame, a []Value) Value {
		d := int64(in.concInt(a[0], 64))
		p := newTimer(in, fr, d, d, "Ticker").(Ptr)
		return (*p).(Struct)[fieldIdx(in.eng.namedType("time", "Ticker"), "C")]
	})
	reg("time.AfterFunc", func(in *Interp, fr *Frame, a []Value) Value {
		s := in.path.sched
		p := new(Value)
		*p = zero(in.eng.namedType("time", "Timer"))
		f := a[1]
		arm := func(d int64) {
			armed := in.snapCur()
			in.path.side[p] = s.addTimer(d, func() {
				g := in.spawn(nil, f, nil)
				if armed != nil {
					g.vc = armed
				}
			}, p)
		}
		in.path.side[timerKey{p}] = arm
		arm(int64(in.concInt(a[0], 64)))
		return p
	})
	stop := func(in *Interp, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		t, _ := in.path.side[p].(*timer)
		if t == nil || t.dead {
			return false
		}
		t.dead = true
		return true
	}
	reg("(*time.Timer).Stop (*time.Ticker).Stop", stop)
	reg("(*time.Timer).Reset (*time.Ticker).Reset", func(in *Interp, fr *Frame, a []Value) Value {
		r := stop(in, fr, a)
		arm := in.path.side[timerKey{a[0].(Ptr)}].(func(int64))
		arm(int64(in.concInt(a[1], 64)))
		return r
	})
}

type timerKey struct{ p Ptr }
