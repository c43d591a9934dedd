// Package sym is the interface between harnesses and the symbolic engine.
// The engine intercepts every function here; compiled natively the same
// harness reads its inputs from a replay record.
package sym

import (
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
)

var (
	inputs map[string]uint64
	names  map[string]int
	// Result of the native run.
	Obs      []string
	Failed   []string
	Reached  []string
	Assumed  bool // an assumption failed
	thorough bool
	opts     map[string]int
	files    []string
)

type stop struct{ why string }

// Reset prepares a native run.
func Reset(in map[string]uint64, th bool) {
	inputs, names = in, map[string]int{}
	Obs, Failed, Reached, Assumed = nil, nil, nil, false
	thorough = th
	opts = map[string]int{}
}

// Run executes a harness natively and reports how it ended.
func Run(f func()) (end string) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if s, ok := r.(stop); ok {
			end = s.why
			return
		}
		end = "panic " + fmt.Sprint(r)
	}()
	defer func() {
		for _, n := range files {
			os.Remove(n)
		}
		files = nil
	}()
	f()
	return "done"
}

func next(name string) uint64 {
	k := names[name]
	names[name]++
	return inputs[name+"#"+strconv.Itoa(k)]
}

// Bits is any w-bit value.
func Bits(name string, w int) uint64 {
	v := next(name)
	if w < 64 {
		v &= 1<<uint(w) - 1
	}
	return v
}

func Bool(name string) bool   { return next(name) == 1 }
func Byte(name string) byte   { return byte(next(name)) }
func Int64(name string) int64 { return int64(next(name)) }

// Int is any value in [lo,hi].
func Int(name string, lo, hi int) int {
	v := int(int64(next(name)))
	Assume(lo <= v && v <= hi)
	return v
}

// Pick is any value in [0,n), n <= 256.
func Pick(name string, n int) int {
	v := int(next(name))
	Assume(v < n)
	return v
}

// Str is any byte string of length lo..hi.
func Str(name string, lo, hi int) string {
	n := int(next(name + ".len"))
	Assume(lo <= n && n <= hi)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteByte(byte(next(name)))
	}
	return sb.String()
}

// Choice is any of opts (at most 256).
func Choice(name string, opts ...string) string {
	v := int(next(name))
	Assume(v < len(opts))
	return opts[v]
}

func Assume(b bool) {
	if !b {
		Assumed = true
		panic(stop{"assume"})
	}
}

func Assert(b bool, label string) {
	if !b {
		Failed = append(Failed, label)
		panic(stop{"assert " + label})
	}
}

// Check is Assert under the label of a known finding or a property part.
func Fail(label string) { Assert(false, label) }

func Reach(label string) { Reached = append(Reached, label) }

func Observe(label string, vals ...any) {
	var parts []string
	for _, v := range vals {
		switch x := v.(type) {
		case string:
			parts = append(parts, fmt.Sprintf("%q", x))
		case int:
			parts = append(parts, fmt.Sprintf("%d", uint64(x)))
		case int64:
			parts = append(parts, fmt.Sprintf("%d", uint64(x)))
		case bool:
			parts = append(parts, fmt.Sprintf("%v", x))
		default:
			parts = append(parts, fmt.Sprintf("<%T>", v))
		}
	}
	Obs = append(Obs, label+"="+strings.Join(parts, ","))
}

// Opt sets an exploration option of the engine (map order, preemptions).
func Opt(name string, v int) { opts[name] = v }

// Varies reports whether native runs of the harness may differ.
func Varies() bool { return opts["preempt"] != 0 || opts["maprev"] != 0 }

// File is the name of a file with the given content.
func File(data []byte) string {
	f, err := os.CreateTemp("", "sym")
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if _, err = f.Write(data); err != nil {
		panic(err)
	}
	files = append(files, f.Name())
	return f.Name()
}

// Thorough reports whether the deeper bounds are wanted.
func Thorough() bool { return thorough }

// Concrete forks over the value of n.
func Concrete(n int) int { return n }

// Symbolic reports whether the engine runs the harness.
func Symbolic() bool { return false }

// Inflate is the engine's decompressor: what was compressed is stored, and it
// gives it in pieces as large as the window of the real one.
func Inflate(r io.Reader) io.ReadCloser { return &inflater{r} }

type inflater struct{ r io.Reader }

func (f *inflater) Read(p []byte) (int, error) {
	if len(p) > 32768 {
		p = p[:32768]
	}
	return f.r.Read(p)
}

func (f *inflater) Close() error { return nil }
