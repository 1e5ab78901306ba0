package h

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"

	"winresverif/sym"
)

type hdr struct {
	A uint8
	B uint16
	C [3]uint8
	D uint32
}

// T00_Binary: sanity of the executor itself.
func T00_Binary() {
	x := hdr{A: sym.U8("a"), B: sym.U16("b"), D: sym.U32("d")}
	copy(x.C[:], sym.Bytes("c", 3))
	var buf bytes.Buffer
	if err := binary.Write(&buf, binary.LittleEndian, &x); err != nil {
		sym.Fail("write")
	}
	var y hdr
	if err := binary.Read(&buf, binary.LittleEndian, &y); err != nil {
		sym.Fail("read")
	}
	sym.Assert(x == y, "roundtrip")
	sym.ObserveInt("b", int(y.B))
	sym.Cover("end")
}

func T00_Strings() {
	s := sym.Str("s", 3)
	if strings.Contains(s, "=b") {
		sym.Cover("contains")
		sym.Assert(strings.Index(s, "=") <= 1, "idx")
	}
	m := map[string]int{"abc": 1, "x": 2}
	if m[s] == 1 {
		sym.Cover("hit")
		sym.ObserveStr("hit", s)
	}
	n, err := strconv.Atoi(s)
	if err == nil {
		sym.Cover("num")
		sym.Assert(n < 1000 && n > -100, "num")
		sym.ObserveStr("n", fmt.Sprintf("%03d", n))
	}
}

func T00_Utf() {
	s := sym.Str("s", 3)
	r := []rune(s)
	u := utf16.Encode(r)
	back := string(utf16.Decode(u))
	if back == s {
		sym.Cover("valid")
		sym.ObserveStr("s", s)
	}
	sym.Assert(len(u) <= 3, "len")
}

func T00_Sort() {
	a := []int{sym.Int("x", 0, 100), sym.Int("y", 0, 100), sym.Int("z", 0, 100)}
	sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
	sym.Assert(a[0] <= a[1] && a[1] <= a[2], "sorted")
	sym.Cover("end")
	sym.ObserveInt("m", a[1])
}

func T00_Panic() {
	a := []int{1, 2, 3}
	i := sym.Int("i", 0, 5)
	defer func() {
		if r := recover(); r != nil {
			sym.Cover("recovered")
			sym.Assert(i >= 3, "only out of range")
		}
	}()
	_ = a[i]
	sym.Assert(i < 3, "in range")
}

func T00_Err() {
	e := fmt.Errorf("wrap: %w", errors.New("x"))
	var t interface{ Unwrap() error }
	sym.Assert(errors.As(e, &t), "as")
	sym.ObserveStr("msg", e.Error())
	sym.Cover("end")
}

func T00_Blob() {
	b := sym.Blob("b", 0, 1000)
	r := bytes.NewReader(b)
	off := sym.Int("off", 0, 2000)
	r.Seek(int64(off), 0)
	var v uint32
	if binary.Read(r, binary.LittleEndian, &v) == nil {
		sym.Cover("read")
		sym.Assert(off+4 <= len(b), "inside")
		sym.Assert(byte(v) == b[off], "first")
		sym.ObserveInt("v", int(v))
	} else {
		sym.Assert(off+4 > len(b), "outside")
		sym.Cover("short")
	}
}
