package h

import (
	"bufio"
	"bytes"
	"cmp"
	"container/list"
	"context"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/xml"
	"errors"
	"fmt"
	"hash/crc32"
	"hash/fnv"
	"html"
	"io"
	"iter"
	"maps"
	"math"
	"math/bits"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf16"
	"unicode/utf8"

	"verif/harness/sym"
)

// X00_std is no check: it compares the engine with native runs on what
// changed code may use of the language and of the standard library.
func init() { All["X00_std"] = X00_std }

type byLen []string

func (b byLen) Len() int           { return len(b) }
func (b byLen) Less(i, j int) bool { return len(b[i]) < len(b[j]) }
func (b byLen) Swap(i, j int)      { b[i], b[j] = b[j], b[i] }

type stdErr struct{ n int }

func (e *stdErr) Error() string { return "std" + strconv.Itoa(e.n) }

type stdPoint struct {
	X, Y int
	S    string
}

func (p stdPoint) Sum() int { return p.X + p.Y }

type stdNum interface{ ~int | ~int64 | ~float64 }

func sumOf[T stdNum](xs ...T) (t T) {
	for _, x := range xs {
		t += x
	}
	return
}

type stdStack[T any] struct{ v []T }

func (s *stdStack[T]) push(x T) { s.v = append(s.v, x) }
func (s *stdStack[T]) all() iter.Seq2[int, T] {
	return func(yield func(int, T) bool) {
		for i, x := range s.v {
			if !yield(i, x) {
				return
			}
		}
	}
}

func caught(f func()) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint(r)
		}
	}()
	f()
	return "fine"
}

func errText(err error) string {
	if err == nil {
		return "<nil>"
	}
	return err.Error()
}

var stdFuncs = []func(s, t string, n int) any{
	func(s, t string, n int) any {
		x := []string{s, "m", t, "a"}
		sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
		return strings.Join(x, "|")
	},
	func(s, t string, n int) any {
		x := []string{s, "mm", t, "aaa"}
		sort.SliceStable(x, func(i, j int) bool { return len(x[i]) < len(x[j]) })
		return strings.Join(x, "|")
	},
	func(s, t string, n int) any {
		x := []string{s, "m", t, "a"}
		sort.Strings(x)
		return strings.Join(x, "|") + fmt.Sprint(sort.SearchStrings(x, "m"))
	},
	func(s, t string, n int) any {
		x := byLen{s, "m", t, "aaa"}
		sort.Sort(sort.Reverse(x))
		sort.Stable(x)
		return strings.Join(x, "|")
	},
	func(s, t string, n int) any {
		x := []int{n, 3, -1, 7}
		slices.Sort(x)
		i, ok := slices.BinarySearch(x, 3)
		return fmt.Sprint(x, i, ok, slices.Max(x), slices.Contains(x, 7), slices.Index(x, 3))
	},
	func(s, t string, n int) any {
		x := []stdPoint{{1, n, s}, {2, 3, t}, {3, 0, "x"}}
		slices.SortFunc(x, func(a, b stdPoint) int {
			return cmp.Or(cmp.Compare(a.Y, b.Y), strings.Compare(a.S, b.S))
		})
		return fmt.Sprint(x[0].X, x[1].X, x[2].X, x[0].Sum())
	},
	func(s, t string, n int) any {
		x := slices.Clone([]string{s, t})
		x = slices.Insert(x, 1, "q", "r")
		x = slices.Delete(x, 0, 1)
		slices.Reverse(x)
		return strings.Join(slices.Compact(x), ",") + fmt.Sprint(slices.Equal(x, []string{t, "r", "q"}))
	},
	func(s, t string, n int) any {
		m := map[string]int{s: 1, "b": 2}
		m[t] += 5
		delete(m, "b")
		keys := slices.Sorted(maps.Keys(m))
		c := maps.Clone(m)
		maps.Copy(c, map[string]int{"z": 9})
		return fmt.Sprint(strings.Join(keys, ","), len(m), len(c), c["z"])
	},
	func(s, t string, n int) any {
		return strings.Join(strings.Fields(" a "+s+" b"+t), "|") + strings.Join(strings.Split(s+",x,"+t, ","), "|") + strings.Join(strings.SplitN("a.b.c", ".", 2), "|")
	},
	func(s, t string, n int) any {
		r := strings.NewReplacer("<", "&lt;", "a", "b")
		return r.Replace(s+"<a"+t) + strings.ReplaceAll(s, t, "-") + strings.Replace("aaa", "a", "b", 2)
	},
	func(s, t string, n int) any {
		return strings.TrimSpace(s+" ") + strings.Trim(s, "ab") + strings.TrimLeft(t, " x") + strings.TrimSuffix(s, t) + strings.TrimPrefix(s, t) + strings.TrimFunc(s, unicode.IsDigit)
	},
	func(s, t string, n int) any {
		return strings.ToLower(s) + strings.ToUpper(t) + strconv.FormatBool(strings.EqualFold(s, t)) + strings.Title(s)
	},
	func(s, t string, n int) any {
		a, b, ok := strings.Cut(s+"=v", "=")
		c, ok2 := strings.CutPrefix(s, t)
		d, ok3 := strings.CutSuffix(s, t)
		return fmt.Sprint(a, b, ok, c, ok2, d, ok3)
	},
	func(s, t string, n int) any {
		return strings.Map(func(r rune) rune {
			if r == 'a' {
				return -1
			}
			return unicode.ToUpper(r)
		}, s+t+"é") + strings.Repeat(s, 3)
	},
	func(s, t string, n int) any {
		return fmt.Sprint(strings.LastIndex(s+t, "a"), strings.IndexAny(s, "xyz"), strings.ContainsRune(s, 'q'), strings.Count(s+t, "a"), strings.IndexFunc(s, unicode.IsUpper), strings.LastIndexByte(s, 'z'), strings.ContainsAny(t, "12"), strings.Index(s+t, t), strings.IndexRune(s+"é", 'é'))
	},
	func(s, t string, n int) any {
		var o []string
		for p := range strings.SplitSeq(s+"/"+t, "/") {
			o = append(o, p)
		}
		for i, c := range s {
			o = append(o, strconv.Itoa(i)+string(c))
		}
		for i := range 3 {
			o = append(o, strconv.Itoa(i))
		}
		return strings.Join(o, "|") + strings.Join(strings.FieldsFunc(s+"1x", unicode.IsDigit), "|")
	},
	func(s, t string, n int) any {
		var b bytes.Buffer
		b.WriteString(s)
		b.WriteByte('\n')
		b.WriteRune('é')
		b.Write([]byte(t))
		l, err := b.ReadString('\n')
		rest, _ := io.ReadAll(&b)
		return l + errText(err) + string(rest) + string(bytes.TrimSpace([]byte(s))) + string(bytes.ToLower([]byte(t)))
	},
	func(s, t string, n int) any {
		return fmt.Sprint(bytes.Contains([]byte(s), []byte("a")), bytes.Compare([]byte(s), []byte(t)), bytes.IndexByte([]byte(s), 'b'), bytes.HasPrefix([]byte(s), []byte(t)), len(bytes.Split([]byte(s+",t"), []byte(","))), bytes.EqualFold([]byte(s), []byte(t)), string(bytes.ReplaceAll([]byte(s), []byte("a"), []byte("bb"))))
	},
	func(s, t string, n int) any {
		r := bufio.NewReader(strings.NewReader(s + "\nsecond\n" + t))
		a, err := r.ReadString('\n')
		c, _ := r.ReadByte()
		p, _ := r.Peek(2)
		rest, _ := io.ReadAll(r)
		return a + errText(err) + string(c) + string(p) + string(rest)
	},
	func(s, t string, n int) any {
		sc := bufio.NewScanner(strings.NewReader("a b\n" + s + "x\n"))
		var o []string
		for sc.Scan() {
			o = append(o, sc.Text())
		}
		sc = bufio.NewScanner(strings.NewReader("a b\n" + t))
		sc.Split(bufio.ScanWords)
		for sc.Scan() {
			o = append(o, sc.Text())
		}
		return strings.Join(o, "|")
	},
	func(s, t string, n int) any {
		var sb strings.Builder
		w := bufio.NewWriter(&sb)
		fmt.Fprintf(w, "%s-%d", s, n)
		w.WriteString(t)
		w.Flush()
		return sb.String() + strconv.Itoa(sb.Len())
	},
	func(s, t string, n int) any {
		return fmt.Sprintf("%d|%5d|%-4d|%05d|%x|%X|%+d|%c|%s|%10s|%-5s|%q|%v|%t|%%", n, n, n, n, n, n, n, 'x', s, t, s, "q", n, n > 0)
	},
	func(s, t string, n int) any {
		return fmt.Sprintf("%v %v %T %v %.2f %g %v %s", []int{n, 2}, []string{s}, n, stdPoint{1, n, t}, 1.5, 2.25, map[string]int{"a": 1, "b": 2}, errors.New(s))
	},
	func(s, t string, n int) any {
		var a int
		var b string
		k, err := fmt.Sscanf("12 xy", "%d %s", &a, &b)
		return fmt.Sprint(k, err, a, b)
	},
	func(s, t string, n int) any {
		return strconv.Quote("a\n"+"é") + strconv.Itoa(n) + strconv.FormatInt(int64(n), 16) + string(strconv.AppendInt(nil, int64(n), 10))
	},
	func(s, t string, n int) any {
		a, e1 := strconv.Atoi(s)
		b, e2 := strconv.ParseInt(t, 16, 64)
		c, e3 := strconv.ParseUint(s, 10, 8)
		d, e4 := strconv.ParseBool(s)
		return fmt.Sprint(a, e1 == nil, b, e2 == nil, c, e3 == nil, d, e4 == nil)
	},
	func(s, t string, n int) any {
		e := &stdErr{4}
		w := fmt.Errorf("wrap %s: %w", s, e)
		var x *stdErr
		ok := errors.As(w, &x)
		j := errors.Join(w, io.EOF)
		return fmt.Sprint(w, ok, x.n, errors.Is(w, e), errors.Is(j, io.EOF), errors.Unwrap(w) == e, errors.Is(w, io.EOF))
	},
	func(s, t string, n int) any {
		r := io.MultiReader(strings.NewReader(s), strings.NewReader("mid"), io.LimitReader(strings.NewReader("123456"), 3))
		var sb strings.Builder
		k, err := io.Copy(&sb, io.TeeReader(r, io.Discard))
		return fmt.Sprint(sb.String(), k, err)
	},
	func(s, t string, n int) any {
		b := make([]byte, 4)
		k, err := io.ReadFull(strings.NewReader("ab"+s), b)
		sr := io.NewSectionReader(strings.NewReader("0123456789"), 2, 4)
		x, _ := io.ReadAll(sr)
		var sb strings.Builder
		io.WriteString(&sb, t)
		return fmt.Sprint(k, err, string(b[:k]), string(x), sb.String())
	},
	func(s, t string, n int) any {
		pr, pw := io.Pipe()
		go func() {
			io.WriteString(pw, "piped")
			pw.CloseWithError(errors.New("end" + s))
		}()
		b, err := io.ReadAll(pr)
		return string(b) + errText(err)
	},
	func(s, t string, n int) any {
		return path.Base("a/"+s) + path.Ext("x."+t) + path.Join("a", "..", s, "b") + path.Dir("a/b/"+s) + path.Clean("a//b/../c") + filepath.Base("/x/y.z") + filepath.Ext("q.png")
	},
	func(s, t string, n int) any {
		ok, err := path.Match("*.x", s+".x")
		return fmt.Sprint(ok, err, path.IsAbs("/"+s))
	},
	func(s, t string, n int) any {
		r := []rune(s + "é界")
		return fmt.Sprint(len(r), string(r), utf8.RuneCountInString(s+"é"), utf8.ValidString(s), utf8.RuneLen('界'), string(utf16.Decode(utf16.Encode(r))), unicode.IsLetter(r[0]), unicode.IsSpace(r[0]), unicode.IsPunct('!'), unicode.Is(unicode.Han, '界'))
	},
	func(s, t string, n int) any {
		f := float64(7) / 2
		return fmt.Sprint(math.Floor(f), math.Ceil(f), math.Round(f), math.Abs(-f), math.Trunc(f), math.Mod(7, 4), math.Pow(2, 10), math.Sqrt(16), math.IsInf(math.Inf(1), 0), math.MaxInt32, math.Max(1, 2), math.Min(1, 2), min(n, 3), max(n, 3))
	},
	func(s, t string, n int) any {
		u := uint64(n)
		return fmt.Sprint(bits.Len64(u), bits.TrailingZeros32(8), bits.OnesCount8(7), bits.Reverse8(1), u<<3>>2, n%7, n/3, -n, n&^1, n^5)
	},
	func(s, t string, n int) any {
		var once sync.Once
		k := 0
		once.Do(func() { k++ })
		once.Do(func() { k++ })
		v := sync.OnceValue(func() int { k++; return n })
		v()
		p := sync.Pool{New: func() any { return new(bytes.Buffer) }}
		b := p.Get().(*bytes.Buffer)
		b.WriteString(s)
		o := b.String()
		b.Reset()
		p.Put(b)
		var m sync.Map
		m.Store(s, 1)
		_, ok := m.Load(t)
		_, loaded := m.LoadOrStore("q", 2)
		var mu sync.RWMutex
		mu.RLock()
		mu.RUnlock()
		mu.Lock()
		defer mu.Unlock()
		return fmt.Sprint(k, v(), o, ok, loaded)
	},
	func(s, t string, n int) any {
		var a atomic.Int64
		var b int32
		var c atomic.Pointer[stdPoint]
		var d atomic.Bool
		a.Add(int64(n))
		atomic.AddInt32(&b, 3)
		ok := atomic.CompareAndSwapInt32(&b, 3, 9)
		c.Store(&stdPoint{X: 4})
		d.Store(true)
		a.CompareAndSwap(1, 100)
		var v atomic.Value
		v.Store(s)
		return fmt.Sprint(a.Load(), b, ok, c.Load().X, d.Load(), v.Load().(string), atomic.LoadInt32(&b))
	},
	func(s, t string, n int) any {
		var wg sync.WaitGroup
		var mu sync.Mutex
		tot := 0
		for i := range 3 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				mu.Lock()
				tot += i
				mu.Unlock()
			}()
		}
		wg.Wait()
		ch := make(chan int, 2)
		ch <- n
		close(ch)
		x, ok := <-ch
		_, ok2 := <-ch
		done := make(chan struct{})
		go func() { close(done) }()
		<-done
		select {
		case <-done:
			tot++
		default:
		}
		return fmt.Sprint(tot, x, ok, ok2, len(ch), cap(ch))
	},
	func(s, t string, n int) any {
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), stdPoint{}, s))
		cancel()
		return fmt.Sprint(ctx.Err(), ctx.Value(stdPoint{}))
	},
	func(s, t string, n int) any {
		return hex.EncodeToString([]byte(s)) + base64.StdEncoding.EncodeToString([]byte("xyz")) + fmt.Sprint(binary.BigEndian.Uint32([]byte{0, 1, 2, 3}), binary.LittleEndian.Uint16([]byte{1, 2}), len(binary.LittleEndian.AppendUint32(nil, 7)))
	},
	func(s, t string, n int) any {
		h := fnv.New32a()
		h.Write([]byte("abc"))
		return fmt.Sprint(crc32.ChecksumIEEE([]byte("abc")), h.Sum32())
	},
	func(s, t string, n int) any {
		var b bytes.Buffer
		xml.EscapeText(&b, []byte("<a&\""))
		o, err := xml.Marshal(struct {
			XMLName xml.Name `xml:"x"`
			A       string   `xml:"a,attr"`
			B       []int    `xml:"b"`
		}{A: "v", B: []int{1, n}})
		return b.String() + html.EscapeString("<'"+"a") + html.UnescapeString("&amp;&lt;") + string(o) + errText(err)
	},
	func(s, t string, n int) any {
		re := regexp.MustCompile(`^r[Ii]d(\d+)$`)
		return fmt.Sprint(re.MatchString("rId"+t), re.FindStringSubmatch("rId77")[1], regexp.MustCompile(`a+`).ReplaceAllString("caat", "-"), re.FindStringIndex("rId1"))
	},
	func(s, t string, n int) any {
		d := 1500 * time.Millisecond
		return fmt.Sprint(d.Seconds(), d.String(), time.Duration(n)*time.Second > d, time.Unix(0, 0).UTC().Year(), time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC).Format(time.RFC3339))
	},
	func(s, t string, n int) any {
		return fmt.Sprint(caught(func() { panic("p" + s) }), caught(func() {
			var m map[string]int
			m["a"] = 1
		}), caught(func() {
			x := []int{1}
			_ = x[n]
		}), caught(func() {
			var e any = s
			_ = e.(int)
		}), caught(func() {
			var p *stdPoint
			_ = p.X
		}), caught(func() {
			z := n - n
			_ = 3 / z
		}))
	},
	func(s, t string, n int) any {
		var st stdStack[string]
		st.push(s)
		st.push("y")
		st.push(t)
		o := ""
	outer:
		for i, x := range st.all() {
			switch {
			case i == 1:
				continue outer
			case x == "z":
				break outer
			}
			o += x + ";"
		}
		return o + fmt.Sprint(sumOf(1, n), sumOf(1.5, 2))
	},
	func(s, t string, n int) any {
		type key struct {
			a string
			b int
		}
		m := map[key]string{{s, 1}: "one", {"k", n}: "n"}
		arr := [3]int{1, 2, n}
		brr := arr
		brr[0] = 9
		f := stdPoint{1, 2, s}.Sum
		g := (*stdErr).Error
		var e any = arr
		clear(m)
		return fmt.Sprint(len(m), arr == brr, arr[0], f(), g(&stdErr{n}), e == any([3]int{1, 2, n}))
	},
	func(s, t string, n int) any {
		return fmt.Sprintf("%v %+v %v %v %d %v %s %v", &stdPoint{1, n, s}, stdPoint{2, n, t}, [2]bool{true}, map[int]string{3: s, 1: "b", 20: t}, []int{n}, []any{s, n, nil}, []string{s, t}, struct{ A, B any }{1, &stdErr{n}})
	},
	func(s, t string, n int) any {
		l := list.New()
		l.PushBack(s)
		l.PushFront(n)
		o := ""
		for e := l.Front(); e != nil; e = e.Next() {
			o += fmt.Sprint(e.Value)
		}
		return o + strconv.Itoa(l.Len())
	},
	func(s, t string, n int) any {
		v := reflect.ValueOf(&stdPoint{1, n, s}).Elem()
		o := ""
		for i := 0; i < v.NumField(); i++ {
			o += v.Type().Field(i).Name + "=" + fmt.Sprint(v.Field(i).Interface()) + ";"
		}
		v.FieldByName("X").SetInt(8)
		return o + fmt.Sprint(v.Field(0).Int(), reflect.DeepEqual([]string{s}, []string{t}), v.Kind() == reflect.Struct, v.NumMethod())
	},
	func(s, t string, n int) any {
		next, stop := iter.Pull(slices.Values([]string{s, t}))
		a, ok := next()
		stop()
		return a + fmt.Sprint(ok)
	},
	func(s, t string, n int) any {
		var w io.Writer = &strings.Builder{}
		if sw, ok := w.(io.StringWriter); ok {
			sw.WriteString(s)
		}
		i := 0
	again:
		i++
		if i < 3 {
			goto again
		}
		fs := []func() int{}
		for j := 0; j < 2; j++ {
			fs = append(fs, func() int { return j + n })
		}
		defer func() { i++ }()
		b := []byte(s + "xyz")
		copy(b[1:], "12")
		c := append(b[:1:1], 'k')
		return fmt.Sprint(w, i, fs[0](), fs[1](), string(b), string(c), uint8(n), int8(n), uint16(n*300))
	},
	func(s, t string, n int) any {
		k := slices.IndexFunc([]string{"a", s, t}, func(x string) bool { return x == t })
		c := slices.Collect(maps.Values(map[int]string{1: s}))
		ch := slices.Collect(slices.Chunk([]int{1, 2, 3}, 2))
		return fmt.Sprint(k, c, ch, slices.Concat([]int{1}, []int{n}), slices.Repeat([]int{n}, 2), slices.ContainsFunc(c, func(x string) bool { return x == "a" }), slices.MaxFunc([]int{1, n}, cmp.Compare[int]))
	},
}

func X00_std() {
	i := pickN("f", len(stdFuncs))
	s, t := symText("s", 0, 1), sym.Str("t", 1, 1)
	sym.Assume(t[0] >= 0x20 && t[0] < 0x7f)
	n := 1 + pickN("n", 2)
	sym.Observe("r", i, stdFuncs[i](s, t, n))
	sym.Reach("std" + strconv.Itoa(i))
}
