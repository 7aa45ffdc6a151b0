package zzvsim

import (
	"encoding/binary"
	"expvar"
	"net/http"
	"time"
)

// Stand-ins for process-wide state of the standard library, which would outlive
// a run or differ between runs.

// ---------------------------------------------------------------- hash/maphash

// Seed stands for maphash.Seed.
type Seed struct{ s uint64 }

func MakeSeed() Seed {
	return Seed{rd() | 1}
}

// MapHash stands for maphash.Hash.
type MapHash struct {
	seed Seed
	h    uint64
	on   bool
}

func (h *MapHash) start() {
	if h.seed.s == 0 {
		h.seed = MakeSeed()
	}
	if !h.on {
		h.h, h.on = 14695981039346656037^h.seed.s, true
	}
}
func (h *MapHash) Write(b []byte) (int, error) {
	h.start()
	for _, c := range b {
		h.h = (h.h ^ uint64(c)) * 1099511628211
	}
	return len(b), nil
}
func (h *MapHash) WriteString(s string) (int, error) { return h.Write([]byte(s)) }
func (h *MapHash) WriteByte(b byte) error            { h.Write([]byte{b}); return nil }
func (h *MapHash) Seed() Seed                        { h.start(); return h.seed }
func (h *MapHash) SetSeed(s Seed)                    { h.seed, h.on = s, false }
func (h *MapHash) Reset()                            { h.on = false }
func (h *MapHash) Size() int                         { return 8 }
func (h *MapHash) BlockSize() int                    { return 128 }
func (h *MapHash) Sum64() uint64 {
	h.start()
	return mixHash(h.h, h.seed.s)
}
func (h *MapHash) Sum(b []byte) []byte { return binary.BigEndian.AppendUint64(b, h.Sum64()) }

func MapHashString(s Seed, x string) uint64 { return MapHashBytes(s, []byte(x)) }
func MapHashBytes(s Seed, x []byte) uint64 {
	h := MapHash{seed: s}
	h.Write(x)
	return h.Sum64()
}

// ---------------------------------------------------------------- net/http

var DefaultServeMux = http.NewServeMux()

func HTTPHandle(p string, h http.Handler) { DefaultServeMux.Handle(p, h) }
func HTTPHandleFunc(p string, f func(http.ResponseWriter, *http.Request)) {
	DefaultServeMux.HandleFunc(p, f)
}

// ---------------------------------------------------------------- expvar

func ExpvarInt(name string) *expvar.Int       { return new(expvar.Int) }
func ExpvarFloat(name string) *expvar.Float   { return new(expvar.Float) }
func ExpvarString(name string) *expvar.String { return new(expvar.String) }
func ExpvarMap(name string) *expvar.Map       { return new(expvar.Map).Init() }
func ExpvarPublish(name string, v expvar.Var) {}

// ---------------------------------------------------------------- flag

func FlagParse()           {}
func FlagArg(i int) string { return "" }
func FlagArgs() []string   { return nil }
func FlagNArg() int        { return 0 }

func FlagString(name string, v string, usage string) *string       { return &v }
func FlagStringVar(p *string, name string, v string, usage string) { *p = v }

func FlagInt(name string, v int, usage string) *int       { return &v }
func FlagIntVar(p *int, name string, v int, usage string) { *p = v }

func FlagInt64(name string, v int64, usage string) *int64       { return &v }
func FlagInt64Var(p *int64, name string, v int64, usage string) { *p = v }

func FlagUint(name string, v uint, usage string) *uint       { return &v }
func FlagUintVar(p *uint, name string, v uint, usage string) { *p = v }

func FlagUint64(name string, v uint64, usage string) *uint64       { return &v }
func FlagUint64Var(p *uint64, name string, v uint64, usage string) { *p = v }

func FlagBool(name string, v bool, usage string) *bool       { return &v }
func FlagBoolVar(p *bool, name string, v bool, usage string) { *p = v }

func FlagDuration(name string, v time.Duration, usage string) *time.Duration       { return &v }
func FlagDurationVar(p *time.Duration, name string, v time.Duration, usage string) { *p = v }

func FlagFloat64(name string, v float64, usage string) *float64       { return &v }
func FlagFloat64Var(p *float64, name string, v float64, usage string) { *p = v }
