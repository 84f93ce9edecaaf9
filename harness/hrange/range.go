// Package hrange holds the harnesses about source ranges and diagnostics.
package hrange

import (
	"bufio"
	"errors"

	"github.com/apparentlymart/go-textseg/textseg"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/zzverif/sym"
)

func pos() hcl.Pos {
	p := hcl.Pos{Byte: sym.Int(), Line: sym.Int(), Column: sym.Int()}
	sym.Assume(p.Byte >= 0 && p.Byte < 1<<40 && p.Line >= 1 && p.Column >= 1)
	return p
}

func wellFormed() hcl.Range {
	r := hcl.Range{Filename: "f", Start: pos(), End: pos()}
	sym.Assume(r.Start.Byte <= r.End.Byte)
	sym.Assume(r.Start.Byte != r.End.Byte || r.Start == r.End)
	return r
}

func in(r hcl.Range, x int) bool { return r.Start.Byte <= x && x < r.End.Byte }

// same position of the file iff same byte offset
func consistent(ps ...hcl.Pos) {
	for i, a := range ps {
		for _, b := range ps[i+1:] {
			sym.Assume((a.Byte == b.Byte) == (a == b))
		}
	}
}

func observe(rs ...hcl.Range) {
	for _, r := range rs {
		sym.ObserveInt("s", r.Start.Byte)
		sym.ObserveInt("e", r.End.Byte)
	}
}

// Algebra: overlap, partition, union and containment of any two ranges of a
// file, with x standing for an arbitrary byte offset.
func Algebra() {
	a, b := wellFormed(), wellFormed()
	consistent(a.Start, a.End, b.Start, b.End)
	x := sym.Int()
	sym.Assume(x >= 0 && x < 1<<40)
	observe(a, b)
	sym.ObserveInt("x", x)
	sym.Assert(a.ContainsOffset(x) == in(a, x), "containment is by byte offset")
	sym.Assert(a.ContainsPos(hcl.Pos{Byte: x, Line: sym.Int()}) == in(a, x), "containment of a position is by byte offset")
	sym.Assert(a.Empty() == (a.Start.Byte == a.End.Byte), "emptiness is by byte offset")
	sym.Assert(a.Overlaps(b) == b.Overlaps(a), "overlap is symmetric")
	both := in(a, x) && in(b, x)
	if both {
		sym.Cover("share a byte")
		sym.Assert(a.Overlaps(b), "ranges sharing a byte overlap")
	}
	if a.End.Byte < b.Start.Byte || b.End.Byte < a.Start.Byte {
		sym.Assert(!a.Overlaps(b), "ranges with bytes between them do not overlap")
	}
	if a.Empty() || b.Empty() {
		sym.Assert(!a.Overlaps(b), "empty ranges do not overlap")
	}
	o := a.Overlap(b)
	sym.Assert(in(o, x) == both, "the overlap has exactly the shared bytes")
	sym.Assert(o.Start.Byte <= o.End.Byte, "the overlap is well formed")
	known := func(p hcl.Pos) bool { return p == a.Start || p == a.End || p == b.Start || p == b.End }
	sym.Assert(known(o.Start) && known(o.End), "the overlap's positions are positions of the operands")
	before, over, after := a.PartitionAround(b)
	sym.Assert(before.Start.Byte <= before.End.Byte && after.Start.Byte <= after.End.Byte, "the partition is well formed")
	sym.Assert(known(before.Start) && known(before.End) && known(after.Start) && known(after.End), "the partition's positions are positions of the operands")
	if !o.Empty() {
		sym.Cover("overlap")
		sym.Assert(over == o, "the partition contains the overlap")
		sym.Assert(in(before, x) == (in(a, x) && x < o.Start.Byte), "the part before is what precedes the overlap")
		sym.Assert(in(after, x) == (in(a, x) && x >= o.End.Byte), "the part after is what follows the overlap")
	} else {
		sym.Assert(before.Empty() && over.Empty() && after.Empty(), "without overlap the partition is empty")
	}
	u := hcl.RangeOver(a, b)
	if in(a, x) || in(b, x) {
		sym.Assert(in(u, x), "the union covers both ranges")
	}
	sym.Assert(known(u.Start) && known(u.End), "the union's positions are positions of the operands")
	if in(u, x) {
		sym.Assert(!(x < a.Start.Byte && x < b.Start.Byte) && !(x >= a.End.Byte && x >= b.End.Byte), "the union covers nothing outside both")
	}
	bt := hcl.RangeBetween(a, b)
	sym.Assert(bt.Start == a.Start && bt.End == b.End && bt.Filename == "f", "range between starts and ends with its operands")
	other := b
	other.Filename = "g"
	sym.Assert(!a.Overlaps(other), "ranges of different files do not overlap")
	sym.Assert(a.Overlap(other).Empty(), "ranges of different files share nothing")
}

// Touching: a range that ends where the other one begins shares no byte with it.
func Touching() {
	a, b := wellFormed(), wellFormed()
	consistent(a.Start, a.End, b.Start, b.End)
	sym.Assume(!a.Empty() && !b.Empty() && a.End.Byte == b.Start.Byte)
	sym.Assert(!a.Overlaps(b) && !b.Overlaps(a), "touching ranges do not overlap")
}

// Slice: slicing by any range, well-formed or not, never panics.
func Slice() {
	buf := sym.Bytes(sym.Choice(sym.Param("n", 5)))
	r := hcl.Range{Start: hcl.Pos{Byte: sym.Int()}, End: hcl.Pos{Byte: sym.Int()}}
	observe(r)
	got := r.SliceBytes(buf)
	ok := r.Start.Byte >= 0 && r.Start.Byte <= r.End.Byte && r.End.Byte <= len(buf)
	sym.Assert(r.CanSliceBytes(buf) == ok, "a range can be sliced exactly if it lies in the buffer")
	if ok {
		sym.Cover("inside")
		sym.Assert(len(got) == r.End.Byte-r.Start.Byte, "slice length")
		if len(got) > 0 {
			sym.Assert(&got[0] == &buf[r.Start.Byte], "slice start")
		}
	}
	sym.Assert(len(got) <= len(buf), "slices are parts of the buffer")
	q := hcl.Range{Filename: "f", Start: hcl.Pos{Byte: sym.Int()}, End: hcl.Pos{Byte: sym.Int()}}
	r.Filename = "f"
	// other operations on arbitrary ranges
	r.Overlaps(q)
	o := r.Overlap(q)
	o.SliceBytes(buf)
	b, ov, a := r.PartitionAround(q)
	b.SliceBytes(buf)
	ov.SliceBytes(buf)
	a.SliceBytes(buf)
	hcl.RangeOver(r, q).SliceBytes(buf)
	p := r.Ptr()
	sym.Assert(*p == r && p != r.Ptr(), "pointer to a copy")
}

func advance(p hcl.Pos, b []byte) hcl.Pos {
	for len(b) > 0 {
		n, seq, _ := textseg.ScanGraphemeClusters(b, true)
		p.Byte += n
		if seq[len(seq)-1] == '\n' {
			p.Line++
			p.Column = 1
		} else {
			p.Column++
		}
		b = b[n:]
	}
	return p
}

func isSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f' }

type token struct{ from, to int }

// lines and words of ASCII text, computed independently of bufio
func split(src []byte, words bool) []token {
	var out []token
	i := 0
	for i < len(src) {
		if words {
			for i < len(src) && isSpace(src[i]) {
				i++
			}
			from := i
			for i < len(src) && !isSpace(src[i]) {
				i++
			}
			if i > from {
				out = append(out, token{from, i})
			}
			continue
		}
		from := i
		for i < len(src) && src[i] != '\n' {
			i++
		}
		to := i
		if to > from && src[to-1] == '\r' {
			to--
		}
		out = append(out, token{from, to})
		i++
	}
	return out
}

func scan(src []byte, mode int, start hcl.Pos) {
	var sc *hcl.RangeScanner
	var fn bufio.SplitFunc
	words := false
	switch mode {
	case 0:
		fn = bufio.ScanLines
	case 1:
		fn = bufio.ScanWords
		words = true
	case 2:
		fn = textseg.ScanGraphemeClusters
	}
	if start == hcl.InitialPos {
		sc = hcl.NewRangeScanner(src, "f", fn)
	} else {
		sc = hcl.NewRangeScannerFragment(src, "f", start, fn)
	}
	var want []token
	if mode == 2 {
		for i := 0; i < len(src); {
			n, _, _ := textseg.ScanGraphemeClusters(src[i:], true)
			want = append(want, token{i, i + n})
			i += n
		}
	} else {
		want = split(src, words)
	}
	i := 0
	for sc.Scan() {
		sym.Assert(i < len(want), "no more tokens than the text has")
		t := want[i]
		r := sc.Range()
		sym.ObserveInt("s", r.Start.Byte)
		sym.ObserveInt("e", r.End.Byte)
		sym.Assert(string(sc.Bytes()) == string(src[t.from:t.to]), "token text")
		sym.Assert(r.Filename == "f", "file name")
		sym.Assert(r.Start == advance(start, src[:t.from]), "token starts at its position")
		sym.Assert(r.End == advance(start, src[:t.to]), "token ends at its position")
		i++
	}
	sym.Assert(sc.Err() == nil, "no error")
	sym.Assert(i == len(want), "every token is visited")
	sym.Assert(!sc.Scan(), "the end is final")
}

// Scan: lines, words and characters of every text.
func Scan() {
	src := sym.BytesIn("ab \n\r\t", sym.Choice(sym.Param("n", 4)+1))
	sym.ObserveBytes("src", src)
	for i, c := range src {
		// a carriage return that is not part of a line ending has no defined column
		sym.Assume(c != '\r' || i+1 < len(src) && src[i+1] == '\n')
	}
	start := hcl.InitialPos
	if sym.Bool() {
		start = hcl.Pos{Byte: 10, Line: 3, Column: 4}
	}
	mode := sym.Choice(3)
	if mode == 1 {
		singleSpaced(src)
	}
	scan(src, mode, start)
}

// singleSpaced: words are separated by exactly one blank (otherwise see WordsLeading).
func singleSpaced(src []byte) {
	blank := true
	for _, c := range src {
		sym.Assume(!blank || !isSpace(c))
		blank = isSpace(c)
	}
	sym.Assume(!blank)
}

// ScanFails: a function that fails or stops at some token.
func ScanFails() {
	n := sym.Param("n", 4)
	src := sym.BytesIn("a \n", n)
	sym.ObserveBytes("src", src)
	at, stop := sym.Choice(n+1), sym.Bool()
	calls := 0
	sc := hcl.NewRangeScanner(src, "f", func(b []byte, eof bool) (int, []byte, error) {
		calls++
		if calls == at+1 {
			if stop {
				return 0, nil, nil
			}
			return 1, b[:1], errStop
		}
		return 1, b[:1], nil
	})
	i := 0
	for sc.Scan() {
		sym.Assert(i < at && string(sc.Bytes()) == string(src[i:i+1]), "tokens up to the failure")
		i++
	}
	sym.Assert(i == at, "every token before the failure is visited")
	if at == n || stop {
		sym.Assert(sc.Err() == nil, "no error")
		return
	}
	sym.Assert(sc.Err() == errStop, "the failure is returned")
	r := sc.Range()
	sym.Assert(r.Start == r.End && r.Start == advance(hcl.InitialPos, src[:i]), "the failure is where scanning stopped")
	sym.Assert(!sc.Scan() && sc.Err() == errStop, "a failure is final")
	sym.Cover("failed")
}

var errStop = errors.New("stop")

// WordsLeading: words preceded by more than one blank.
func WordsLeading() {
	src := []byte{' ', sym.ByteIn("ab")}
	sym.ObserveBytes("src", src)
	sc := hcl.NewRangeScanner(src, "f", bufio.ScanWords)
	sym.Assert(sc.Scan(), "a word is found")
	r := sc.Range()
	sym.Assert(r.Start.Byte == 1 && r.End.Byte == 2, "the range of a word after blanks covers the word")
}

// ScanUnicode: as Scan for text with multi-byte characters and clusters.
func ScanUnicode() {
	items := []string{"é", "é", "\U0001F468‍\U0001F469", "\r\n", "\n", "a", " ", "가"}
	var src []byte
	k := sym.Param("k", 3)
	for i := 0; i < k; i++ {
		src = append(src, items[sym.Choice(len(items))]...)
	}
	src = append(src, sym.ByteIn("x \n\x81\xcc"))
	sym.ObserveBytes("src", src)
	start := hcl.InitialPos
	if sym.Bool() {
		start = hcl.Pos{Byte: 100, Line: 7, Column: 2}
	}
	mode := sym.Choice(3)
	if mode == 1 {
		singleSpaced(src)
	}
	scan(src, mode, start)
}
