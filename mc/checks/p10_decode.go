package checks

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"strconv"

	"github.com/zhiqiangxu/mondis/document"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/kv/compact"
	mcmp "github.com/zhiqiangxu/mondis/kv/memcomparable"
	"github.com/zhiqiangxu/mondis/kv/numeric"

	"mc/hz"
)

// reference decoder of the ordered byte encoding
func refDecodeBytes(b []byte, desc bool) (val, rest []byte, ok bool) {
	in := append([]byte{}, b...)
	if desc {
		for i := range in {
			in[i] = ^in[i]
		}
	}
	at := 0
	for {
		if len(in)-at < 9 {
			return nil, nil, false
		}
		g, mark := in[at:at+8], in[at+8]
		at += 9
		pad := 0xff - int(mark)
		if pad > 8 {
			return nil, nil, false
		}
		val = append(val, g[:8-pad]...)
		for _, x := range g[8-pad:] {
			if x != 0 {
				return nil, nil, false
			}
		}
		if pad > 0 {
			return val, b[at:], true
		}
	}
}

// reference unsigned varint: at most 64 bits
func refUvarint(b []byte) (v uint64, n int, ok bool) {
	for i, x := range b {
		if i == 9 && x > 1 || i > 9 {
			return 0, 0, false
		}
		v |= uint64(x&0x7f) << (7 * uint(i))
		if x < 0x80 {
			return v, i + 1, true
		}
	}
	return 0, 0, false
}

func unzig(u uint64) int64 {
	v := int64(u >> 1)
	if u&1 != 0 {
		v = ^v
	}
	return v
}

// embed returns b inside a larger array: reading past its end sees other bytes
func embed(b []byte, fill byte) []byte {
	big := append(append([]byte{}, b...), bytes.Repeat([]byte{fill}, 32)...)
	return big[:len(b)]
}

func init() {
	hz.Register("P10", &hz.Check{
		Level:  "exploration",
		Rule:   "exhaustive enumeration of byte strings over boundary alphabets (every marker byte, every short string, every truncation and single-byte corruption of valid encodings), each decoded by every decoder and compared with an independently written reference decoder; all inputs distinct",
		Assume: []string{"bytes outside the alphabets are treated like those inside"},
		Run: func(r *hz.R) {
			// inputs
			set := map[string]bool{}
			var ins []string
			put := func(s string) {
				if !set[s] {
					set[s] = true
					ins = append(ins, s)
				}
			}
			n := 4
			if !r.Quick {
				n = 6
			}
			for _, s := range allStrings([]byte{0, 1, 0x7f, 0x80, 0xff}, n) {
				put(s)
			}
			groups := []string{"\x00\x00\x00\x00\x00\x00\x00\x00", "\xff\xff\xff\xff\xff\xff\xff\xff", "aaaaaaaa", "a\x00\x00\x00\x00\x00\x00\x00", "aaaaaaa\x00", "aaa\x00\x00\x00\x00\x01", "a\xff\xff\xff\xff\xff\xff\xff", "aaaaaaa\xff", "aaa\xff\xff\xff\xff\xfe", "\x01\x00\x00\x00\x00\x00\x00\x00", "\x00\x00\x00\x00\x00\x00\x00\x01"}
			for _, g := range groups {
				for m := 0; m < 256; m++ {
					s := g + string([]byte{byte(m)})
					put(s)
					put(s + "x")
					if m == 0xff || m == 0 {
						for _, g2 := range groups {
							for m2 := 0; m2 < 256; m2++ {
								put(s + g2 + string([]byte{byte(m2)}))
							}
							for k := 0; k <= 8; k++ {
								put(s + g2[:k])
							}
						}
					}
				}
				for k := 0; k < 8; k++ {
					put(g[:k])
				}
			}
			for _, v := range groupStrings(!r.Quick) {
				for _, e := range [][]byte{mcmp.EncodeBytes(nil, []byte(v)), mcmp.EncodeBytesDesc(nil, []byte(v)), compact.EncodeBytes(nil, []byte(v))} {
					put(string(e))
					if len(v)%3 != 0 && r.Quick && len(v) > 9 && len(v) < 40 {
						continue
					}
					for k := 0; k < len(e); k++ {
						// of long ones, the first and last groups and the marker bytes
						if len(v) >= 40 && k > 9 && k < len(e)-10 && (k%9 != 8 || len(v) > 300 && k%72 != 8) {
							continue
						}
						put(string(e[:k]))
						for _, d := range []byte{1, 0x80, 0xff} {
							c := append([]byte{}, e...)
							c[k] ^= d
							put(string(c))
						}
					}
				}
			}
			for _, x := range []byte{0x80, 0xff, 0x81} {
				for k := 0; k <= 12; k++ {
					for _, end := range []string{"", "\x00", "\x01", "\x02", "\x7f", "\x01zz"} {
						put(string(bytes.Repeat([]byte{x}, k)) + end)
					}
				}
			}
			for _, v := range u64set() {
				for _, pay := range []string{"", "payload"} {
					put(string(compact.EncodeVarint(nil, int64(v))) + pay)
					put(string(compact.EncodeUvarint(nil, v)) + pay)
				}
			}
			r.Enum("byte-strings", len(ins), func(i int, l *hz.Log) {
				s := ins[i]
				for _, fill := range []byte{0, 0xff} {
					for _, desc := range []bool{false, true} {
						in := embed([]byte(s), fill)
						var rest, v []byte
						var err error
						if desc {
							rest, v, err = mcmp.DecodeBytesDesc(in, nil)
						} else {
							rest, v, err = mcmp.DecodeBytes(in, nil)
						}
						l.Logf("ordered bytes(desc=%v) of %x: %q %q %v", desc, s, v, rest, err)
						wv, wr, ok := refDecodeBytes([]byte(s), desc)
						if !ok {
							l.Assert(err != nil, "decoding %x (desc=%v) is accepted as %q", s, desc, v)
						} else {
							l.Assert(err == nil && bytes.Equal(v, wv) && bytes.Equal(rest, wr), "decoding %x (desc=%v) = %q,%q,%v want %q,%q", s, desc, v, rest, err, wv, wr)
						}
					}
					in := embed([]byte(s), fill)
					rest, n, err := compact.DecodeVarint(in)
					u, k, ok := refUvarint([]byte(s))
					l.Logf("varint: %d %v", n, err)
					l.Assert(ok == (err == nil), "DecodeVarint(%x) = %d,%v, valid: %v", s, n, err, ok)
					if ok {
						l.Assert(n == unzig(u) && string(rest) == s[k:], "DecodeVarint(%x) = %d,%q want %d,%q", s, n, rest, unzig(u), s[k:])
					}
					rest, un, err := compact.DecodeUvarint(in)
					l.Assert(ok == (err == nil), "DecodeUvarint(%x) = %d,%v, valid: %v", s, un, err, ok)
					if ok {
						l.Assert(un == u && string(rest) == s[k:], "DecodeUvarint(%x) = %d,%q want %d,%q", s, un, rest, u, s[k:])
					}
					rest, v, err := compact.DecodeBytes(in)
					l.Logf("compact bytes: %q %q %v", v, rest, err)
					valid := ok && unzig(u) >= 0 && unzig(u) <= int64(len(s)-k)
					l.Assert(valid == (err == nil), "compact.DecodeBytes(%x) = %q,%v, valid: %v", s, v, err, valid)
					if valid {
						m := int(unzig(u))
						l.Assert(string(v) == s[k:k+m] && string(rest) == s[k+m:], "compact.DecodeBytes(%x) = %q,%q", s, v, rest)
					}
					// numbers
					type dn struct {
						name string
						f    func(b []byte) ([]byte, uint64, error)
						size int
						want func(u uint64) uint64
					}
					id := func(u uint64) uint64 { return u }
					not := func(u uint64) uint64 { return ^u }
					for _, d := range []dn{
						{"Uint64", mcmp.DecodeUint64, 8, id},
						{"Uint64Desc", mcmp.DecodeUint64Desc, 8, not},
						{"Int64", func(b []byte) ([]byte, uint64, error) { r, v, e := mcmp.DecodeInt64(b); return r, uint64(v) ^ 1<<63, e }, 8, id},
						{"Int64Desc", func(b []byte) ([]byte, uint64, error) {
							r, v, e := mcmp.DecodeInt64Desc(b)
							return r, uint64(v) ^ 1<<63, e
						}, 8, not},
						{"Uint8", func(b []byte) ([]byte, uint64, error) { r, v, e := mcmp.DecodeUint8(b); return r, uint64(v), e }, 1, id},
						{"Uint8Desc", func(b []byte) ([]byte, uint64, error) { r, v, e := mcmp.DecodeUint8Desc(b); return r, uint64(v), e }, 1, func(u uint64) uint64 { return ^u & 0xff }},
						{"Float64", func(b []byte) ([]byte, uint64, error) {
							r, v, e := mcmp.DecodeFloat64(b)
							u := math.Float64bits(v)
							if u>>63 != 0 {
								u = ^u
							} else {
								u |= 1 << 63
							}
							return r, u, e
						}, 8, id},
						{"Float64Desc", func(b []byte) ([]byte, uint64, error) {
							r, v, e := mcmp.DecodeFloat64Desc(b)
							u := math.Float64bits(v)
							if u>>63 != 0 {
								u = ^u
							} else {
								u |= 1 << 63
							}
							return r, u, e
						}, 8, not},
					} {
						rest, v, err := d.f(in)
						l.Obs++
						if len(s) < d.size {
							l.Assert(err != nil, "Decode%s accepts %d bytes", d.name, len(s))
							continue
						}
						var u uint64
						for _, b := range []byte(s[:d.size]) {
							u = u<<8 | uint64(b)
						}
						l.Assert(err == nil && string(rest) == s[d.size:], "Decode%s(%x) leaves %x, error %v", d.name, s, rest, err)
						if !math.IsNaN(math.Float64frombits(u)) && !math.IsNaN(math.Float64frombits(^u)) && !math.IsNaN(math.Float64frombits(u^1<<63)) && !math.IsNaN(math.Float64frombits(^u^1<<63)) {
							l.Assert(v == d.want(u), "Decode%s(%x) = %x want %x", d.name, s, v, d.want(u))
						}
					}
					bv, err := numeric.DecodeFromBinary(in)
					if len(s) != 8 {
						l.Assert(err != nil, "DecodeFromBinary accepts %d bytes", len(s))
					} else {
						l.Assert(err == nil && bytes.Equal(numeric.Encode2Binary(bv, nil), []byte(s)), "DecodeFromBinary(%x) = %x,%v", s, bv, err)
					}
				}
			})
			// human readable numbers
			hs := allStrings([]byte("-+019 a_.\x00"), 4)
			if !r.Quick {
				hs = allStrings([]byte("-+0189 axe_.\x00"), 5)
			}
			for _, e := range []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999", "00000000000000000000000000001", "0x10", "1e3", "1_000"} {
				hs = append(hs, e, " "+e, e+" ", e+"\n")
			}
			r.Enum("human-numbers", len(hs), func(i int, l *hz.Log) {
				s := hs[i]
				n, err := numeric.DecodeFromHuman([]byte(s))
				l.Logf("%q -> %d %v", s, n, err)
				digits := s
				if len(digits) > 0 && (digits[0] == '-' || digits[0] == '+') {
					digits = digits[1:]
				}
				valid := digits != ""
				for _, c := range digits {
					if c < '0' || c > '9' {
						valid = false
					}
				}
				if !valid {
					l.Assert(err != nil, "DecodeFromHuman accepts %q as %d", s, n)
					return
				}
				b, _ := new(big.Int).SetString(digits, 10)
				if s[0] == '-' {
					b.Neg(b)
				}
				if !b.IsInt64() {
					l.Assert(err != nil, "DecodeFromHuman accepts %q as %d", s, n)
					return
				}
				if err == nil {
					l.Assert(n == b.Int64(), "DecodeFromHuman(%q) = %d", s, n)
				}
				if strconv.FormatInt(b.Int64(), 10) == s {
					l.Assert(err == nil, "DecodeFromHuman(%q) failed: %v", s, err)
				}
			})
			us := u64set()
			r.Enum("numbers-roundtrip", len(us), func(i int, l *hz.Log) {
				u := us[i]
				for _, pre := range []string{"", "pre"} {
					for _, pay := range []string{"", "\x00", "\x80", "\xff\xff"} {
						e := append(compact.EncodeVarint([]byte(pre), int64(u)), pay...)
						l.Assert(string(e[:len(pre)]) == pre, "EncodeVarint changed the buffer")
						rest, v, err := compact.DecodeVarint(e[len(pre):])
						l.Logf("%d -> %x -> %d", int64(u), e, v)
						l.Assert(err == nil && v == int64(u) && string(rest) == pay, "varint of %d decodes to %d,%q,%v", int64(u), v, rest, err)
						e = append(compact.EncodeUvarint([]byte(pre), u), pay...)
						rest, uv, err := compact.DecodeUvarint(e[len(pre):])
						l.Assert(err == nil && uv == u && string(rest) == pay, "uvarint of %d decodes to %d,%q,%v", u, uv, rest, err)
					}
					h := numeric.Encode2Human(int64(u))
					n, err := numeric.DecodeFromHuman(h)
					l.Assert(err == nil && n == int64(u), "human %d decodes to %d,%v", int64(u), n, err)
					bb := numeric.Encode2Binary(u, []byte(pre))
					l.Assert(string(bb[:len(pre)]) == pre && len(bb) == len(pre)+8, "Encode2Binary changed the buffer")
					v, err := numeric.DecodeFromBinary(bb[len(pre):])
					l.Assert(err == nil && v == u, "binary %d decodes to %d,%v", u, v, err)
				}
			})
			gs := groupStrings(!r.Quick)
			r.Enum("compact-bytes-roundtrip", len(gs), func(i int, l *hz.Log) {
				for _, b := range [][]byte{nil, []byte("pre"), append(make([]byte, 0, 64), "pre"...)} {
					for _, pay := range []string{"", "\x00", "\xff\xff"} {
						pre := string(b)
						e := compact.EncodeBytes(b, []byte(gs[i]))
						l.Assert(string(e[:len(pre)]) == pre && string(b) == pre, "compact.EncodeBytes changed the buffer")
						e = append(append([]byte{}, e...), pay...)
						rest, v, err := compact.DecodeBytes(e[len(pre):])
						l.Logf("%q -> %x -> %q %q", gs[i], e, v, rest)
						l.Assert(err == nil && string(v) == gs[i] && string(rest) == pay, "compact bytes %q decode to %q,%q,%v", gs[i], v, rest, err)
					}
				}
			})
			// key decoders: valid keys, all truncations, single byte corruptions, and short strings
			var keys []string
			kset := map[string]bool{}
			kput := func(s string) {
				if !kset[s] {
					kset[s] = true
					keys = append(keys, s)
				}
			}
			var valid []string
			for _, cid := range []int64{math.MinInt64, -1, 0, 1, 255, math.MaxInt64} {
				for _, did := range []int64{math.MinInt64, -1, 0, 1, math.MaxInt64} {
					valid = append(valid, string(dml.EncodeCollectionDocumentKey(nil, cid, did)))
				}
				for _, nm := range []string{"", "a", "name\x00", "eightlen", "\xff\xff"} {
					valid = append(valid, string(dml.EncodeCollectionIndexName2IDKey(nil, cid, nm)))
				}
				valid = append(valid, string(dml.AppendCollectionIndexDataPrefix(nil, cid)))
			}
			valid = append(valid, string(dml.EncodeMetaIndexKey(nil, 7)), string(dml.EncodeMetaCollectionName2IDKey(nil, "c")), string(dml.EncodeMetaSequenceKey(nil, []byte("collection"))))
			for _, v := range valid {
				kput(v)
				kput(v + "\x00")
				for k := 0; k < len(v); k++ {
					kput(v[:k])
					for _, d := range []byte{1, 0x80, 0xff} {
						c := []byte(v)
						c[k] ^= d
						kput(string(c))
					}
				}
			}
			for _, s := range allStrings([]byte("_mdc\x00"), 5) {
				kput(s)
			}
			r.Enum("keys", len(keys), func(i int, l *hz.Log) {
				s := keys[i]
				in := kv.Key(embed([]byte(s), 0x5f))
				cid, did, err := dml.DecodeCollectionDocumentKey(in)
				l.Logf("document key %q: %d %d %v", s, cid, did, err)
				if err == nil {
					e := string(dml.EncodeCollectionDocumentKey(nil, cid, did))
					l.Assert(len(s) >= len(e) && s[:len(e)] == e, "%q is decoded as document %d of %d, whose key is %q", s, did, cid, e)
				}
				for k, dec := range []func(kv.Key) (int64, []byte, error){dml.DecodeCollectionIndexName2IDKey, document.DecodeCollectionIndexName2IDKey} {
					cid, nm, err := dec(in)
					l.Obs++
					if err == nil {
						e := string(dml.EncodeCollectionIndexName2IDKey(nil, cid, string(nm)))
						l.Assert(e == s, "%q is decoded (%d) as index name %q of %d, whose key is %q", s, k, nm, cid, e)
					}
				}
				l.Assert(string(in) == s, "decoding changed the key")
			})
			_ = fmt.Sprint
		},
	})
}
