package checks

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"

	mcmp "github.com/zhiqiangxu/mondis/kv/memcomparable"

	"mc/hz"
)

// all strings over the alphabet up to length n
func allStrings(alpha []byte, n int) []string {
	out := []string{""}
	lo := 0
	for l := 0; l < n; l++ {
		hi := len(out)
		for ; lo < hi; lo++ {
			for _, a := range alpha {
				out = append(out, out[lo]+string([]byte{a}))
			}
		}
	}
	return out
}

// long strings that differ in their last byte, one in the middle, or in length
func longStrings() (r []string) {
	for _, n := range []int{40, 63, 64, 65, 72, 120, 127, 128, 129, 136, 255, 256, 257, 264, 1023, 1024, 1025} {
		for _, f := range []byte{0, 'a', 0xff} {
			w := strings.Repeat(string([]byte{f}), n)
			r = append(r, w, w[:n-1]+"b", w[:n-1]+"\x00", w[:n/2]+"\x01"+w[n/2+1:], w[:n-1]+"\xff")
		}
	}
	return
}

// strings around the 8-byte group boundaries: fills with varying ends
func groupStrings(thorough bool) []string {
	set := map[string]bool{}
	n := 4
	maxLen := 18
	if thorough {
		n = 6
		maxLen = 34
	}
	for _, s := range allStrings([]byte{0, 1, 0xff}, n) {
		set[s] = true
	}
	for _, s := range allStrings([]byte{0, 'a', 0xf7, 0xfe, 0xff}, 2) {
		set[s] = true
	}
	tails := allStrings([]byte{0, 1, 0xff}, 2)
	if thorough {
		tails = allStrings([]byte{0, 1, 0x80, 0xff}, 3)
	}
	for l := 5; l <= maxLen; l++ {
		for _, f := range []byte{0, 'a', 0xff} {
			for _, t := range tails {
				if len(t) <= l {
					set[string(bytes.Repeat([]byte{f}, l-len(t)))+t] = true
				}
			}
		}
	}
	for _, s := range longStrings() {
		set[s] = true
	}
	r := make([]string, 0, len(set))
	for s := range set {
		r = append(r, s)
	}
	sort.Slice(r, func(i, j int) bool {
		if len(r[i]) != len(r[j]) {
			return len(r[i]) < len(r[j])
		}
		return r[i] < r[j]
	})
	return r
}

func u64set() []uint64 {
	m := map[uint64]bool{}
	for k := uint(0); k < 64; k++ {
		for _, d := range []uint64{0, 1, ^uint64(0)} {
			v := uint64(1)<<k + d
			m[v], m[^v] = true, true
		}
	}
	for _, b := range []uint64{0, 0x7f, 0x80, 0xff} {
		for sh := uint(0); sh < 64; sh += 8 {
			m[b<<sh] = true
			m[^(b << sh)] = true
		}
	}
	var r []uint64
	for v := range m {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func floatSet() []float64 {
	var r []float64
	for e := 0; e < 2047; e++ {
		for _, m := range []uint64{0, 1, 1 << 51, 1<<52 - 1} {
			f := math.Float64frombits(uint64(e)<<52 | m)
			r = append(r, f, -f)
		}
	}
	r = append(r, math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), 1.5, -1.5, math.Pi, -math.Pi)
	sort.Float64s(r)
	return r
}

// codec of one type under one direction
type codec struct {
	name string
	n    int
	desc bool
	enc  func(buf []byte, i int) []byte
	// dec decodes b and tells whether the value equals value i
	dec func(b []byte, i int) (rest []byte, same bool, err error)
	cmp func(i, j int) int
	str func(i int) string
}

func sgn(less, eq bool) int {
	switch {
	case eq:
		return 0
	case less:
		return -1
	}
	return 1
}

func codecs(thorough bool) []codec {
	ss := groupStrings(thorough)
	us := u64set()
	fs := floatSet()
	var cs []codec
	bcmp := func(i, j int) int { return strings.Compare(ss[i], ss[j]) }
	bstr := func(i int) string { return fmt.Sprintf("%q", ss[i]) }
	inp := func(i int) []byte { return []byte(ss[i]) }
	cs = append(cs,
		codec{"bytes", len(ss), false, func(b []byte, i int) []byte { return mcmp.EncodeBytes(b, inp(i)) },
			func(b []byte, i int) ([]byte, bool, error) {
				r, v, e := mcmp.DecodeBytes(b, nil)
				r2, v2, e2 := mcmp.DecodeBytes(b, []byte("previous contents of a reused buffer"))
				return r, string(v) == ss[i] && string(v2) == ss[i] && bytes.Equal(r, r2) && (e == nil) == (e2 == nil), e
			}, bcmp, bstr},
		codec{"bytes-desc", len(ss), true, func(b []byte, i int) []byte { return mcmp.EncodeBytesDesc(b, inp(i)) },
			func(b []byte, i int) ([]byte, bool, error) {
				r, v, e := mcmp.DecodeBytesDesc(b, nil)
				r2, v2, e2 := mcmp.DecodeBytesDesc(b, make([]byte, 3, 64))
				return r, string(v) == ss[i] && string(v2) == ss[i] && bytes.Equal(r, r2) && (e == nil) == (e2 == nil), e
			}, bcmp, bstr},
	)
	ucmp := func(i, j int) int { return sgn(us[i] < us[j], us[i] == us[j]) }
	ustr := func(i int) string { return fmt.Sprint(us[i]) }
	icmp := func(i, j int) int { return sgn(int64(us[i]) < int64(us[j]), us[i] == us[j]) }
	istr := func(i int) string { return fmt.Sprint(int64(us[i])) }
	cs = append(cs,
		codec{"uint64", len(us), false, func(b []byte, i int) []byte { return mcmp.EncodeUint64(b, us[i]) },
			func(b []byte, i int) ([]byte, bool, error) {
				r, v, e := mcmp.DecodeUint64(b)
				return r, v == us[i], e
			}, ucmp, ustr},
		codec{"uint64-desc", len(us), true, func(b []byte, i int) []byte { return mcmp.EncodeUint64Desc(b, us[i]) },
			func(b []byte, i int) ([]byte, bool, error) {
				r, v, e := mcmp.DecodeUint64Desc(b)
				return r, v == us[i], e
			}, ucmp, ustr},
		codec{"int64", len(us), false, func(b []byte, i int) []byte { return mcmp.EncodeInt64(b, int64(us[i])) },
			func(b []byte, i int) ([]byte, bool, error) {
				r, v, e := mcmp.DecodeInt64(b)
				return r, v == int64(us[i]) && mcmp.DecodeUint64ToInt64(mcmp.EncodeInt64ToUint64(v)) == v, e
			}, icmp, istr},
		codec{"int64-desc", len(us), true, func(b []byte, i int) []byte { return mcmp.EncodeInt64Desc(b, int64(us[i])) },
			func(b []byte, i int) ([]byte, bool, error) {
				r, v, e := mcmp.DecodeInt64Desc(b)
				return r, v == int64(us[i]), e
			}, icmp, istr},
		codec{"uint8", 256, false, func(b []byte, i int) []byte { return mcmp.EncodeUint8(b, uint8(i)) },
			func(b []byte, i int) ([]byte, bool, error) {
				r, v, e := mcmp.DecodeUint8(b)
				return r, v == uint8(i), e
			}, func(i, j int) int { return sgn(i < j, i == j) }, func(i int) string { return fmt.Sprint(i) }},
		codec{"uint8-desc", 256, true, func(b []byte, i int) []byte { return mcmp.EncodeUint8Desc(b, uint8(i)) },
			func(b []byte, i int) ([]byte, bool, error) {
				r, v, e := mcmp.DecodeUint8Desc(b)
				return r, v == uint8(i), e
			}, func(i, j int) int { return sgn(i < j, i == j) }, func(i int) string { return fmt.Sprint(i) }},
	)
	fcmp := func(i, j int) int { return sgn(fs[i] < fs[j], fs[i] == fs[j]) }
	fstr := func(i int) string { return fmt.Sprint(fs[i]) }
	cs = append(cs,
		codec{"float64", len(fs), false, func(b []byte, i int) []byte { return mcmp.EncodeFloat64(b, fs[i]) },
			func(b []byte, i int) ([]byte, bool, error) {
				r, v, e := mcmp.DecodeFloat64(b)
				return r, v == fs[i], e
			}, fcmp, fstr},
		codec{"float64-desc", len(fs), true, func(b []byte, i int) []byte { return mcmp.EncodeFloat64Desc(b, fs[i]) },
			func(b []byte, i int) ([]byte, bool, error) {
				r, v, e := mcmp.DecodeFloat64Desc(b)
				return r, v == fs[i], e
			}, fcmp, fstr},
	)
	return cs
}

func init() {
	hz.Register("P09", &hz.Check{
		Level:  "exploration",
		Rule:   "exhaustive enumeration of value alphabets (all strings over boundary bytes up to a length and around every 8-byte group boundary, all power-of-two and byte boundary integers, all 256 bytes, four mantissas of every float exponent), every pair compared in both directions, every value decoded before several suffixes and encoded behind several buffers; all inputs are distinct, non-trivial = every one",
		Assume: []string{"values outside the alphabets follow the same byte-group arithmetic"},
		Run: func(r *hz.R) {
			cs := codecs(true)
			suffixes := []string{"", "\x00", "\xff", "tail", "\x00\x00\x00\x00\x00\x00\x00\x00\xf7", "\xff\xff\xff\xff\xff\xff\xff\xff\x00"}
			prefixes := [][]byte{nil, {}, []byte("pre"), append(make([]byte, 0, 3), "abc"...), append(make([]byte, 0, 8), "abc"...), append(make([]byte, 0, 200), "abcde"...)}
			for _, c := range cs {
				c := c
				encs := make([][]byte, c.n)
				for i := range encs {
					func() {
						defer func() { _ = recover() }()
						encs[i] = c.enc(nil, i)
					}()
				}
				r.Enum(c.name+"/roundtrip", c.n, func(i int, l *hz.Log) {
					enc := c.enc(nil, i)
					l.Logf("%s encodes to %x", c.str(i), enc)
					if c.name == "bytes" || c.name == "bytes-desc" {
						_, v, _ := mcmp.DecodeBytes(enc, nil)
						if !c.desc {
							l.Assert(mcmp.EncodedBytesLength(len(v)) == len(enc), "EncodedBytesLength(%d) = %d, the encoding has %d bytes", len(v), mcmp.EncodedBytesLength(len(v)), len(enc))
						}
					}
					for _, s := range suffixes {
						in := append(append([]byte{}, enc...), s...)
						keep := string(in)
						rest, same, err := c.dec(in, i)
						l.Logf("decoded before %q: %v %q %v", s, same, rest, err)
						l.Assert(err == nil && same, "%s: decoding the encoding of %s followed by %q does not return it (error %v)", c.name, c.str(i), s, err)
						l.Assert(string(rest) == s, "%s: decoding %s leaves %q instead of %q", c.name, c.str(i), rest, s)
						l.Assert(string(in) == keep, "%s: decoding changed its input", c.name)
					}
					for _, p := range prefixes {
						var b []byte
						if p != nil {
							b = append(make([]byte, 0, cap(p)), p...)
						}
						out := c.enc(b, i)
						l.Obs++
						l.Assert(len(out) == len(p)+len(enc) && bytes.Equal(out[:len(p)], p) && bytes.Equal(out[len(p):], enc), "%s: encoding %s behind %q (cap %d) gives %x, want %x", c.name, c.str(i), p, cap(p), out, enc)
						l.Assert(bytes.Equal(b, p), "%s: encoding changed the bytes already in the buffer", c.name)
						out2 := c.enc(out[:len(out):len(out)], (i*7+1)%c.n)
						l.Assert(bytes.Equal(out2[:len(out)], out), "%s: appending a second value changed the first", c.name)
					}
				})
				pairs := func(i, j int, l *hz.Log) {
					l.Obs++
					want := c.cmp(i, j)
					if c.desc {
						want = -want
					}
					got := bytes.Compare(encs[i], encs[j])
					if got != want {
						l.Fail("%s: encodings of %s and %s compare %d, want %d", c.name, c.str(i), c.str(j), got, want)
					}
					if want != 0 && bytes.HasPrefix(encs[i], encs[j]) {
						l.Fail("%s: the encoding of %s starts with that of %s", c.name, c.str(i), c.str(j))
					}
				}
				if c.n > 10000 && r.Quick {
					// sorted values: neighbours decide the order of all
					r.Enum(c.name+"/order", c.n-1, func(i int, l *hz.Log) {
						l.Logf("%s vs %s", c.str(i), c.str(i+1))
						pairs(i, i+1, l)
						pairs(i+1, i, l)
					})
					continue
				}
				r.Enum(c.name+"/order", c.n, func(i int, l *hz.Log) {
					l.Logf("%s vs all %d values", c.str(i), c.n)
					for j := 0; j < c.n; j++ {
						pairs(i, j, l)
					}
				})
			}
			// tuples: (bytes, int64, bytes desc) must keep tuple order
			ts := []string{"", "\x00", "a", "a\x00", "aaaaaaaa", "aaaaaaaa\x00", "\xff", "\xff\xff\xff\xff\xff\xff\xff\xff"}
			ti := []int64{math.MinInt64, -1, 0, 1, math.MaxInt64}
			n := len(ts) * len(ti) * len(ts)
			enc := func(k int) ([]byte, string, int64, string) {
				a, b, d := ts[k/(len(ti)*len(ts))], ti[k/len(ts)%len(ti)], ts[k%len(ts)]
				x := mcmp.EncodeBytes(nil, []byte(a))
				x = mcmp.EncodeInt64(x, b)
				return mcmp.EncodeBytesDesc(x, []byte(d)), a, b, d
			}
			r.Enum("tuples", n, func(i int, l *hz.Log) {
				e1, a1, b1, d1 := enc(i)
				l.Logf("(%q,%d,%q) vs all tuples", a1, b1, d1)
				for j := 0; j < n; j++ {
					e2, a2, b2, d2 := enc(j)
					want := bytes.Compare([]byte(a1), []byte(a2))
					if want == 0 {
						want = sgn(b1 < b2, b1 == b2)
					}
					if want == 0 {
						want = -bytes.Compare([]byte(d1), []byte(d2))
					}
					l.Obs++
					l.Assert(bytes.Compare(e1, e2) == want, "tuples (%q,%d,%q) and (%q,%d,%q) compare %d, want %d", a1, b1, d1, a2, b2, d2, bytes.Compare(e1, e2), want)
				}
			})
		},
	})
}
