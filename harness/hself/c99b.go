package hself

import (
	"bytes"
	"container/heap"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/base64"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"hash/fnv"
	"io"
	"io/ioutil"
	"log"
	"math/big"
	"math/rand"
	"os"
	"path"
	"reflect"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"text/tabwriter"
	"time"
	"unicode"
	"unsafe"

	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

type intHeap []int

func (h intHeap) Len() int            { return len(h) }
func (h intHeap) Less(i, j int) bool  { return h[i] < h[j] }
func (h intHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *intHeap) Push(x interface{}) { *h = append(*h, x.(int)) }
func (h *intHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

func C99_Heap() {
	h := &intHeap{}
	for i := 0; i < 3; i++ {
		heap.Push(h, int(sym.Byte("x"+strconv.Itoa(i))))
	}
	a := heap.Pop(h).(int)
	b := heap.Pop(h).(int)
	sym.Assert(a <= b, "heap")
}
func C99_Hashes() {
	x := []byte("hello")
	h := fnv.New64a()
	h.Write(x)
	sym.Assert(h.Sum64() == 0xa430d84680aabd0b, "fnv")
	sym.Assert(crc32.ChecksumIEEE(x) == 0x3610a686, "crc")
	s := md5.Sum(x)
	sym.Assert(s[0] == 0x5d, "md5")
	s1 := sha1.Sum(x)
	sym.Assert(s1[0] == 0xaa, "sha1")
	s2 := sha256.Sum256(x)
	sym.Assert(s2[0] == 0x2c, "sha256")
}
func C99_HashSym() {
	x := sym.Bytes("x", 2)
	h := fnv.New32a()
	h.Write(x)
	_ = h.Sum32()
	sym.Assert(crc32.ChecksumIEEE(x) == crc32.ChecksumIEEE(append([]byte{}, x...)), "crc")
}
func C99_JSON() {
	type T struct {
		A int
		B string
		C []byte `json:"c,omitempty"`
		D map[string]int64
	}
	t := T{1, "x", []byte{1}, map[string]int64{"z": 1}}
	b, err := json.Marshal(t)
	sym.Assert(err == nil, "marshal")
	var u T
	sym.Assert(json.Unmarshal(b, &u) == nil && reflect.DeepEqual(t, u), "unmarshal")
}
func C99_Gob() {
	var buf bytes.Buffer
	sym.Assert(gob.NewEncoder(&buf).Encode([]int{1, 2}) == nil, "gob")
	var y []int
	sym.Assert(gob.NewDecoder(&buf).Decode(&y) == nil && len(y) == 2, "ungob")
}
func C99_Rand() {
	r := rand.New(rand.NewSource(1))
	n := r.Intn(3)
	sym.Assert(n >= 0 && n < 3, "rand")
	m := rand.Intn(10)
	sym.Assert(m < 10, "global")
	p := rand.Perm(3)
	sym.Assert(len(p) == 3, "perm")
	rand.Shuffle(2, func(i, j int) {})
}
func C99_Regexp() {
	sym.Assert(regexp.MustCompile("^a+b$").MatchString("aaab"), "regexp")
}
func C99_Log() {
	log.SetOutput(ioutil.Discard)
	log.Println("x", 1)
	log.Printf("%v", []int{1})
	fmt.Fprintln(ioutil.Discard, "x")
	fmt.Fprintf(os.Stderr, "")
	_ = debug.Stack()
}
func C99_Os() {
	_ = os.Getenv("HOME")
	_ = path.Join("a", "b")
	sym.Assert(path.Base("/a/b") == "b", "base")
	runtime.Gosched()
	_ = runtime.NumGoroutine()
	_ = runtime.NumCPU()
	runtime.GC()
}
func C99_Big() {
	a := big.NewInt(5)
	b := new(big.Int).Exp(a, big.NewInt(30), nil)
	sym.Assert(b.String() == "931322574615478515625", "big")
}
func C99_SyncMap() {
	var m sync.Map
	m.Store("a", 1)
	v, ok := m.LoadOrStore("a", 2)
	sym.Assert(ok && v.(int) == 1, "loadorstore")
	m.Range(func(k, v interface{}) bool { return true })
	m.Delete("a")
	_, ok = m.Load("a")
	sym.Assert(!ok, "deleted")
	var rw sync.RWMutex
	rw.RLock()
	rw.RLock()
	rw.RUnlock()
	rw.RUnlock()
	rw.Lock()
	rw.Unlock()
	l := rw.RLocker()
	l.Lock()
	l.Unlock()
}
func C99_Scan() {
	var a int
	var s string
	n, err := fmt.Sscanf("12 ab", "%d %s", &a, &s)
	sym.Assert(n == 2 && err == nil && a == 12, "sscanf")
	n, _ = fmt.Sscan("7", &a)
	sym.Assert(a == 7, "sscan")
}
func C99_Fmt() {
	x := sym.Byte("x")
	s := fmt.Sprintf("%s-%q-%x-%v-%+v-%T-%p-%08d-%t-%c-%%", "a", "b", []byte{1, 255}, []int{1}, struct{ A int }{1}, 1, nil, 5, true, 'x')
	sym.Assert(strings.HasPrefix(s, `a-"b"-01ff-[1]-{A:1}-int-`), "sprintf")
	k := fmt.Sprintf("k%d", x)
	sym.Assert(len(k) >= 2, "num")
	y := fmt.Sprintf("%x", x)
	sym.Assert(len(y) >= 1, "hex")
	z := fmt.Sprintf("%s", []byte{x})
	sym.Assert(z[0] == x, "bytes")
	q := fmt.Sprint("a", 1, 2, "b")
	sym.Assert(q == "a1 2b", "sprint")
	var w strings.Builder
	fmt.Fprintf(&w, "<%s>%d", []byte{x}, 7)
	fmt.Fprint(&w, "k", 1)
	sym.Assert(w.Len() == 6 && w.String()[1] == x, "fprintf")
	type p struct {
		A byte
		B []string
		C map[string]int
	}
	u := fmt.Sprintf("%v|%+v", p{x, []string{"q"}, map[string]int{"b": 2, "a": 1}}, &p{B: []string{"z", "y"}})
	sym.Assert(strings.HasSuffix(u, " [q] map[a:1 b:2]}|&{A:0 B:[z y] C:map[]}"), "composite")
	other := sym.Byte("other")
	c1, c2 := fmt.Sprint(p{A: x}), fmt.Sprint(p{A: other})
	sym.Assert((c1 == c2) == (x == other), "injective")
	e := fmt.Errorf("e %v: %w", 1, io.EOF)
	sym.Assert(errors.Is(e, io.EOF) && errors.Unwrap(e) == io.EOF, "errorf")
}
func C99_Unicode() {
	x := sym.Byte("x")
	sym.Assert(!unicode.IsUpper(rune(x)) || !unicode.IsLower(rune(x)), "case")
	sym.Assert(strings.ToUpper("abc") == "ABC" && strings.EqualFold("Ab", "aB"), "fold")
	sym.Assert(strings.Title("ab") == "Ab", "title")
	t := strings.Map(func(r rune) rune { return r + 1 }, "ab")
	sym.Assert(t == "bc", "map")
	r := strings.NewReplacer("a", "b")
	sym.Assert(r.Replace("aa") == "bb", "replacer")
	sym.Assert(len(strings.Fields(" a b ")) == 2, "fields")
	var sb strings.Builder
	sb.WriteByte(x)
	sb.WriteString("q")
	sb.WriteRune('z')
	sym.Assert(sb.Len() == 3 && sb.String()[0] == x, "builder")
	i := strings.IndexByte(sb.String(), x)
	sym.Assert(i == 0, "indexbyte")
	sym.Assert(strings.Compare("a", "b") < 0 && strings.Count("aaa", "a") == 3 && strings.Repeat("a", 3) == "aaa", "misc")
	a, b := sym.Bytes("a", 2), sym.Bytes("b", 2)
	sym.Assert(bytes.EqualFold(a, a) && bytes.Count(a, b) <= 1, "bytes")
	sym.Assert(bytes.HasPrefix(bytes.Join([][]byte{a, b}, []byte{0}), a), "join")
	sym.Assert(len(bytes.Split(a, []byte{0})) <= 3, "split")
	sym.Assert(bytes.LastIndexByte(a, a[1]) == 1, "last")
	sym.Assert(len(bytes.TrimRight(a, "\x00")) <= 2, "trim")
}
func C99_Base64() {
	x := sym.Bytes("x", 2)
	s := base64.StdEncoding.EncodeToString(x)
	y, err := base64.StdEncoding.DecodeString(s)
	sym.Assert(err == nil && bytes.Equal(x, y), "b64")
}
func C99_Unsafe() {
	x := sym.Bytes("x", 2)
	s := *(*string)(unsafe.Pointer(&x))
	sym.Assert(len(s) == 2 && s[0] == x[0], "b2s")
	var h [3]int
	sym.Assert(unsafe.Sizeof(h) == 24, "sizeof")
}
func C99_Select() {
	a, b := make(chan int), make(chan int)
	done := make(chan struct{})
	go func() {
		for {
			select {
			case v := <-a:
				b <- v + 1
			case <-done:
				close(b)
				return
			}
		}
	}()
	a <- 1
	sym.Assert(<-b == 2, "echo")
	close(done)
	_, ok := <-b
	sym.Assert(!ok, "closed")
	select {
	case a <- 1:
		sym.Assert(false, "sent")
	default:
	}
	t := time.NewTimer(time.Second)
	if !t.Stop() {
		<-t.C
	}
	t.Reset(time.Millisecond)
	<-t.C
	sem := make(chan struct{}, 1)
	sem <- struct{}{}
	select {
	case sem <- struct{}{}:
		sym.Assert(false, "full")
	case <-time.After(time.Second):
	}
}

type base struct{ n int }

func (b *base) inc()    { b.n++ }
func (b base) get() int { return b.n }

type derived struct {
	base
	io.Reader
	f func(int) int
}

func C99_Lang() {
	d := derived{f: func(x int) int { return x * 2 }}
	d.inc()
	f := d.inc
	f()
	sym.Assert(d.get() == 2 && d.f(3) == 6, "embed")
	var fs []func() int
	for i := 0; i < 3; i++ {
		i := i
		fs = append(fs, func() int { return i })
	}
	sym.Assert(fs[1]() == 1, "closure")
	x := sym.Int("x")
	switch {
	case x > 5:
		fallthrough
	case x > 3:
		sym.Assert(x > 3, "fall")
	default:
		sym.Assert(x <= 3, "default")
	}
	m := map[string][]int{}
	m["a"] = append(m["a"], 1)
	for k := range m {
		delete(m, k)
	}
	sym.Assert(len(m) == 0, "range delete")
	mi := map[interface{}]int{1: 1, "a": 2}
	sym.Assert(mi["a"] == 2 && mi[1] == 1, "iface key")
	s := []int{1, 2, 3, 4}
	copy(s[1:], s)
	sym.Assert(s[3] == 3 && s[1] == 1, "overlap")
	s = append(s[:1], s[2:]...)
	sym.Assert(len(s) == 3 && cap(s) == 4, "delete")
	var arr [4]byte
	copy(arr[:], "abcd")
	b := arr
	b[0] = 'z'
	sym.Assert(arr[0] == 'a', "array copy")
	func() {
		defer func() {
			r := recover()
			sym.Assert(r != nil, "panicked")
			e, ok := r.(runtime.Error)
			sym.Assert(ok, "is runtime error")
			sym.Assert(ok && strings.Contains(e.Error(), "index out of range"), "runtime error")
		}()
		i := 7
		_ = s[i]
	}()
	func() {
		defer func() {
			sym.Assert(recover() == "second", "repanic")
		}()
		defer func() {
			recover()
			panic("second")
		}()
		panic("first")
	}()
	type pt struct {
		x, y int
		s    string
	}
	sym.Assert(pt{1, 2, "a"} == pt{1, 2, "a"} && interface{}(pt{}) == interface{}(pt{}), "struct eq")
	goto end
end:
	var np *base
	func() {
		defer func() { sym.Assert(recover() != nil, "nil deref") }()
		_ = np.n
	}()
	const big = 1 << 40
	var u8 = uint8(sym.Byte("u"))
	sym.Assert(u8<<4>>4 == u8&15 && big>>38 == 4, "shift")
	var sh = sym.Uint64("sh")
	if sh > 64 {
		sym.Assert(uint64(1)<<sh == 0 && int64(-1)>>sh == -1, "overshift")
	}
}
func C99_SortSlice() {
	x := []int{int(sym.Byte("a")), int(sym.Byte("b")), int(sym.Byte("c"))}
	sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	sym.Assert(x[0] <= x[1] && x[1] <= x[2], "slice")
	sort.SliceStable(x, func(i, j int) bool { return x[i] > x[j] })
	sym.Assert(x[0] >= x[2], "stable")
	i := sort.Search(3, func(i int) bool { return x[i] <= 5 })
	sym.Assert(i == 3 || x[i] <= 5, "search")
	y := []string{"b", "a"}
	sort.Sort(sort.Reverse(sort.StringSlice(y)))
	sym.Assert(y[0] == "b", "reverse")
	sort.Sort(sort.IntSlice(x))
}
func C99_Reflect2() {
	a := map[string][]byte{"a": {sym.Byte("x")}}
	b := map[string][]byte{"a": {sym.Byte("y")}}
	if reflect.DeepEqual(a, b) {
		sym.Assert(a["a"][0] == b["a"][0], "deep")
	}
	v := reflect.ValueOf(struct{ A, B int }{1, 2})
	sym.Assert(v.NumField() == 2 && v.Field(1).Int() == 2 && v.Type().Field(0).Name == "A", "fields")
	sym.Assert(reflect.TypeOf(a).Kind() == reflect.Map, "kind")
	tw := tabwriter.NewWriter(ioutil.Discard, 0, 8, 0, '\t', 0)
	tw.Flush()
}
