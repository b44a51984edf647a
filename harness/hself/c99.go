package hself

import (
	"bufio"
	"bytes"
	"container/list"
	"context"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"math/bits"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

type myErr struct{ n int }

func (e *myErr) Error() string { return "my " + strconv.Itoa(e.n) }
func C99_As() {
	b := sym.Byte("b")
	var err error = fmt.Errorf("wrapped: %w", &myErr{int(b)})
	var m *myErr
	sym.Assert(errors.As(err, &m) && m.n == int(b), "as")
	sym.Assert(!errors.As(errors.New("x"), &m), "not as")
}
func C99_Buffer() {
	x := sym.Bytes("x", 3)
	var buf bytes.Buffer
	buf.Write(x)
	buf.WriteByte(7)
	buf.WriteString("ab")
	sym.Assert(buf.Len() == 6 && buf.Bytes()[1] == x[1], "buffer")
	r := bytes.NewReader(buf.Bytes())
	y := make([]byte, 2)
	n, err := io.ReadFull(r, y)
	sym.Assert(n == 2 && err == nil && y[0] == x[0], "reader")
}
func C99_Binary() {
	x := sym.Uint64("x")
	b := binary.BigEndian.AppendUint64(nil, x)
	sym.Assert(binary.BigEndian.Uint64(b) == x, "be")
	var buf bytes.Buffer
	sym.Assert(binary.Write(&buf, binary.BigEndian, x) == nil, "write")
	var y uint64
	sym.Assert(binary.Read(&buf, binary.BigEndian, &y) == nil && y == x, "read")
}
func C99_Varint() {
	x := sym.Uint64("x")
	b := binary.AppendUvarint(nil, x)
	y, n := binary.Uvarint(b)
	sym.Assert(y == x && n == len(b), "varint")
}
func C99_Strings() {
	x := string(sym.Bytes("x", 3))
	sym.Assert(strings.Join(strings.Split(x, ","), ",") == x, "split join")
	sym.Assert(strings.TrimPrefix("p"+x, "p") == x, "trimprefix")
	sym.Assert(strings.HasSuffix(x+"z", "z"), "suffix")
	var sb strings.Builder
	sb.WriteString(x)
	sb.WriteByte('q')
	sym.Assert(sb.String() == x+"q" && sb.Len() == 4, "builder")
	sym.Assert(strings.Repeat("a", 3) == "aaa", "repeat")
	sym.Assert(strings.EqualFold("aB", "Ab"), "fold")
}
func C99_Bytes() {
	x := sym.Bytes("x", 3)
	sym.Assert(bytes.HasPrefix(append([]byte("p"), x...), []byte("p")), "hasprefix")
	sym.Assert(bytes.Equal(bytes.TrimPrefix(append([]byte("p"), x...), []byte("p")), x), "trim")
	sym.Assert(bytes.Equal(bytes.Join([][]byte{x, x}, nil), append(append([]byte{}, x...), x...)), "join")
	sym.Assert(bytes.Equal(bytes.Repeat([]byte{1}, 4), []byte{1, 1, 1, 1}), "repeat")
	i := bytes.IndexByte(x, 5)
	sym.Assert(i == -1 || x[i] == 5, "indexbyte")
	sym.Assert(bytes.Contains(append([]byte("ab"), x...), []byte("ab")), "contains")
	sym.Assert(bytes.Equal(bytes.Clone(x), x), "clone")
	sym.Assert(bytes.Count([]byte{1, 1}, []byte{1}) == 2, "count")
}

type byN []int

func (b byN) Len() int           { return len(b) }
func (b byN) Less(i, j int) bool { return b[i] < b[j] }
func (b byN) Swap(i, j int)      { b[i], b[j] = b[j], b[i] }
func C99_Sort() {
	a := []int{int(sym.Byte("a")), int(sym.Byte("b")), int(sym.Byte("c"))}
	b := append([]int{}, a...)
	sort.Sort(byN(b))
	sym.Assert(b[0] <= b[1] && b[1] <= b[2], "sort")
	sort.Ints(a)
	sym.Assert(a[0] == b[0] && a[2] == b[2], "ints")
	sort.Sort(sort.Reverse(sort.IntSlice(a)))
	sym.Assert(a[0] == b[2], "reverse")
	sort.Stable(byN(a))
	sym.Assert(a[0] == b[0], "stable")
	i := sort.Search(3, func(i int) bool { return b[i] >= 7 })
	sym.Assert(i == 3 || b[i] >= 7, "search")
	i = sort.SearchInts(b, b[1])
	sym.Assert(b[i] == b[1], "searchints")
}
func C99_List() {
	l := list.New()
	l.PushBack(sym.Byte("a"))
	l.PushFront(sym.Byte("b"))
	n := 0
	for e := l.Front(); e != nil; e = e.Next() {
		n++
	}
	sym.Assert(n == 2 && l.Len() == 2, "list")
}
func C99_Ctx() {
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	select {
	case <-ctx.Done():
		sym.Assert(ctx.Err() == context.DeadlineExceeded, "deadline")
	case <-time.After(2 * time.Second):
		sym.Assert(false, "late")
	}
	ctx = context.WithValue(context.Background(), "k", 3)
	sym.Assert(ctx.Value("k").(int) == 3, "value")
	c2, cc := context.WithCancel(ctx)
	cc()
	<-c2.Done()
	sym.Assert(c2.Err() != nil && errors.Is(c2.Err(), context.Canceled), "canceled")
}
func C99_Atomic() {
	var a atomic.Int64
	var v atomic.Value
	a.Add(int64(sym.Byte("x")))
	v.Store(a.Load())
	sym.Assert(v.Load().(int64) == a.Load(), "atomic")
	var u uint32
	sym.Assert(atomic.CompareAndSwapUint32(&u, 0, 2) && atomic.LoadUint32(&u) == 2, "cas")
	var b atomic.Bool
	b.Store(true)
	sym.Assert(b.Load(), "bool")
	var once sync.Once
	n := 0
	once.Do(func() { n++ })
	once.Do(func() { n++ })
	sym.Assert(n == 1, "once")
	p2 := sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}
	sym.Assert(p2.Get().(*bytes.Buffer).Len() == 0, "pool")
}
func C99_Group() {
	var wg sync.WaitGroup
	var mu sync.Mutex
	n := 0
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); mu.Lock(); n++; mu.Unlock() }()
	}
	wg.Wait()
	sym.Assert(n == 3, "group")
	c := sync.NewCond(&mu)
	ready := false
	go func() { mu.Lock(); ready = true; c.Broadcast(); mu.Unlock() }()
	mu.Lock()
	for !ready {
		c.Wait()
	}
	mu.Unlock()
	sym.Assert(ready, "cond")
}
func C99_Strconv() {
	x := sym.Byte("x")
	s := strconv.FormatUint(uint64(x), 10)
	y, err := strconv.ParseUint(s, 10, 64)
	sym.Assert(err == nil && y == uint64(x), "parse")
	sym.Assert(fmt.Sprintf("%d-%s", 3, "a") == "3-a", "sprintf")
	sym.Assert(fmt.Sprint("a", 1) != "", "sprint")
	sym.Assert(string(strconv.AppendQuote(nil, "a")) == `"a"`, "quote")
	_, err = strconv.Atoi("zz")
	sym.Assert(err != nil, "atoi")
	f, err := strconv.ParseFloat("1.5", 64)
	sym.Assert(err == nil && f == 1.5, "float")
	b, err := strconv.ParseBool("true")
	sym.Assert(err == nil && b, "bool")
}
func C99_Hex() {
	x := sym.Bytes("x", 2)
	y, err := hex.DecodeString(hex.EncodeToString(x))
	sym.Assert(err == nil && bytes.Equal(x, y), "hex")
}
func C99_Math() {
	x := sym.Uint64("x")
	sym.Assert(bits.ReverseBytes64(bits.ReverseBytes64(x)) == x, "rev")
	sym.Assert(bits.LeadingZeros64(x) <= 64 && bits.Len64(x) == 64-bits.LeadingZeros64(x), "len")
	sym.Assert(math.Float64bits(math.Float64frombits(x)) == x || math.IsNaN(math.Float64frombits(x)), "bits")
	sym.Assert(bits.OnesCount8(uint8(x)) <= 8, "ones")
	_, c := bits.Add64(x, 1, 0)
	sym.Assert((c == 1) == (x == math.MaxUint64), "add")
}
func C99_Reflect() {
	sym.Assert(reflect.DeepEqual([]byte{1, 2}, []byte{1, 2}), "deep")
	var e interface{} = &myErr{1}
	sym.Assert(reflect.TypeOf(e).Kind() == reflect.Ptr, "kind")
	sym.Assert(reflect.ValueOf(e).Elem().NumField() == 1, "fields")
	sym.Assert(!reflect.ValueOf(e).IsNil(), "nil")
}
func C99_Bufio() {
	x := sym.Bytes("x", 2)
	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	w.Write(x)
	w.Flush()
	sym.Assert(bytes.Equal(buf.Bytes(), x), "bufio")
	sc := bufio.NewScanner(strings.NewReader("a\nb"))
	n := 0
	for sc.Scan() {
		n++
	}
	sym.Assert(n == 2, "scanner")
}
func C99_Utf8() {
	x := sym.Bytes("x", 2)
	r, n := utf8.DecodeRune(x)
	sym.Assert(n >= 1 && r >= 0, "rune")
	for _, r := range string(x) {
		sym.Assert(r >= 0, "range")
	}
}
func C99_Time() {
	t := time.Now()
	time.Sleep(time.Second)
	sym.Assert(time.Since(t) >= time.Second, "since")
	sym.Assert(t.Add(time.Hour).After(t) && t.Before(t.Add(1)), "after")
	sym.Assert(t.Add(time.Hour).Sub(t) == time.Hour, "sub")
	sym.Assert(time.Unix(5, 0).Unix() == 5, "unix")
	sym.Assert(time.Until(t) < 0, "until")
	fired := make(chan struct{})
	time.AfterFunc(time.Second, func() { close(fired) })
	<-fired
	tk := time.NewTicker(time.Second)
	<-tk.C
	tk.Stop()
	sym.Assert((1500*time.Millisecond).Seconds() == 1.5, "seconds")
	sym.Assert((1500*time.Millisecond).String() == "1.5s", "string")
	sym.Assert(time.Duration(1500*time.Millisecond).Round(time.Second) == 2*time.Second, "round")
}
func C99_Defer() {
	f := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("recovered: %v", r)
			}
		}()
		var m map[string]int
		m["a"] = 1
		return nil
	}
	sym.Assert(f() != nil, "recover")
	type k struct {
		a, b int64
	}
	m := map[k][]byte{{1, 2}: {3}}
	sym.Assert(m[k{1, 2}][0] == 3, "struct key")
	type arr [4]byte
	m2 := map[arr]int{{1}: 1}
	delete(m2, arr{1})
	sym.Assert(len(m2) == 0, "array key")
	a := [...]int{1, 2, 3}
	s := a[:2:2]
	s = append(s, 9)
	sym.Assert(a[2] == 3 && s[2] == 9, "three index")
	var i interface{ Error() string } = &myErr{1}
	switch v := i.(type) {
	case *myErr:
		sym.Assert(v.n == 1, "type switch")
	}
	g := (*myErr).Error
	h := i.Error
	sym.Assert(g(&myErr{1}) == h(), "method values")
L:
	for i := 0; i < 3; i++ {
		for {
			continue L
		}
	}
	ch := make(chan int, 2)
	ch <- 1
	close(ch)
	n := 0
	for range ch {
		n++
	}
	sym.Assert(n == 1 && cap(ch) == 2, "chan")
}
