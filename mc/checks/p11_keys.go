package checks

import (
	"fmt"
	"math"
	"strings"

	"github.com/zhiqiangxu/mondis/document"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/kv"

	"mc/hz"
)

func init() {
	hz.Register("P11", &hz.Check{
		Level:  "exploration",
		Rule:   "every key of every kind built from all combinations of boundary ids, names and column sets; every pair of keys compared; all inputs distinct",
		Assume: []string{"ids and names outside the alphabets behave like those inside"},
		Run: func(r *hz.R) {
			ids := []int64{math.MinInt64, math.MinInt64 + 1, -256, -1, 0, 1, 2, 0x5f, 0x5f5f5f5f5f5f5f5f, 0x5f64, 255, 256, math.MaxInt64 - 1, math.MaxInt64}
			names := []string{"", "a", "ab", "b", "a\x00", "A", "collection", "index", "_d", "_id", "_in", "\xff", "eightlen", "eightlen\x00", "eightlenn", "\x00\x00\x00\x00\x00\x00\x00\x00"}
			// names that differ only behind the first 7, 8, 9, ... 1024 bytes
			for _, n := range []int{7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1024} {
				l := strings.Repeat("n", n)
				names = append(names, l, l+"a", l+"b", l+"a\x00")
			}
			if !r.Quick {
				names = append(names, allStrings([]byte{0, '_', 'd', 'i', 0xff}, 3)...)
				m := map[string]bool{}
				var u []string
				for _, n := range names {
					if !m[n] {
						m[n] = true
						u = append(u, n)
					}
				}
				names = u
			}
			cols := [][]document.IndexField{}
			cn := []string{"a", "b", "ab", "", "a\x00", "\x01a"}
			for _, x := range cn {
				cols = append(cols, []document.IndexField{{Name: x}})
				for _, y := range cn {
					if x < y {
						for f := 0; f < 4; f++ {
							cols = append(cols, []document.IndexField{{Name: x, Desc: f&1 != 0}, {Name: y, Desc: f&2 != 0}})
						}
					}
				}
			}
			cols = append(cols, []document.IndexField{{Name: "a"}, {Name: "ab"}, {Name: "b"}}, []document.IndexField{{Name: "a"}, {Name: "ab"}, {Name: "b", Desc: true}})
			// more columns, each ascending or descending
			for n := 3; n <= 6; n++ {
				for f := 0; f < 1<<uint(n); f++ {
					var l []document.IndexField
					for i := 0; i < n; i++ {
						l = append(l, document.IndexField{Name: fmt.Sprintf("f%d", i), Desc: f>>uint(i)&1 != 0})
					}
					cols = append(cols, l)
				}
			}
			for _, n := range []int{7, 8, 9, 31, 32, 63, 64, 65, 127, 128, 255, 256, 1024} {
				l := strings.Repeat("n", n)
				for _, x := range []string{l, l + "a", l + "b"} {
					cols = append(cols, []document.IndexField{{Name: x}}, []document.IndexField{{Name: "A"}, {Name: x, Desc: true}})
				}
			}
			type ent struct {
				desc string
				kind string
				cid  int64
				did  int64
				mk   func(legacy bool, buf []byte) kv.Key
			}
			var es []ent
			for _, c := range ids {
				c := c
				for _, d := range ids {
					d := d
					es = append(es, ent{fmt.Sprintf("document %d/%d", c, d), "doc", c, d, func(lg bool, b []byte) kv.Key {
						if lg {
							return document.EncodeCollectionDocumentKey(b, c, d)
						}
						return dml.EncodeCollectionDocumentKey(b, c, d)
					}})
				}
				for _, n := range names {
					n := n
					es = append(es, ent{fmt.Sprintf("index name %d/%q", c, n), "iname", c, 0, func(lg bool, b []byte) kv.Key {
						if lg {
							return document.EncodeCollectionIndexName2IDKey(b, c, n)
						}
						return dml.EncodeCollectionIndexName2IDKey(b, c, n)
					}})
				}
				for _, f := range cols {
					f := f
					es = append(es, ent{fmt.Sprintf("columns %d/%v", c, f), "cols", c, 0, func(_ bool, b []byte) kv.Key {
						return document.EncodeCollectionColumnsIndexedKey(b, c, append([]document.IndexField{}, f...))
					}})
				}
				es = append(es, ent{fmt.Sprintf("index %d", c), "index", 0, c, func(lg bool, b []byte) kv.Key {
					if lg {
						return document.EncodeMetaIndexKey(b, c)
					}
					return dml.EncodeMetaIndexKey(b, c)
				}})
			}
			for _, n := range names {
				n := n
				es = append(es, ent{fmt.Sprintf("collection %q", n), "cname", 0, 0, func(lg bool, b []byte) kv.Key {
					if lg {
						return document.EncodeMetaCollectionName2IDKey(b, n)
					}
					return dml.EncodeMetaCollectionName2IDKey(b, n)
				}}, ent{fmt.Sprintf("sequence %q", n), "seq", 0, 0, func(lg bool, b []byte) kv.Key {
					if lg {
						return document.EncodeMetaSequenceKey(b, []byte(n))
					}
					return dml.EncodeMetaSequenceKey(b, []byte(n))
				}})
			}
			keys := make([]string, len(es))
			for i, e := range es {
				keys[i] = string(e.mk(false, nil))
			}
			r.Enum("keys", len(es), func(i int, l *hz.Log) {
				e := es[i]
				k := e.mk(false, nil)
				l.Logf("%s -> %x", e.desc, k)
				l.Assert(string(k) == string(e.mk(true, nil)), "%s: the two document packages disagree on its key", e.desc)
				for _, pre := range [][]byte{{}, []byte("pre"), append(make([]byte, 0, 100), "pre"...)} {
					b := append(make([]byte, 0, cap(pre)), pre...)
					l.Assert(string(e.mk(false, b)) == string(pre)+keys[i], "%s: key behind a buffer differs", e.desc)
					l.Assert(string(b) == string(pre), "%s: buffer changed", e.desc)
				}
				if e.kind == "doc" {
					c, d, err := dml.DecodeCollectionDocumentKey(k)
					l.Assert(err == nil && c == e.cid && d == e.did, "%s decodes to %d/%d,%v", e.desc, c, d, err)
				}
				if e.kind == "iname" {
					for lg, dec := range []func(kv.Key) (int64, []byte, error){dml.DecodeCollectionIndexName2IDKey, document.DecodeCollectionIndexName2IDKey} {
						c, n, err := dec(k)
						l.Assert(err == nil && c == e.cid && e.desc == fmt.Sprintf("index name %d/%q", c, n), "%s decodes (%d) to %d/%q,%v", e.desc, lg, c, n, err)
					}
				}
				for j := range es {
					l.Obs++
					o := es[j]
					l.Assert(i == j || keys[i] != keys[j], "%s and %s share the key %q", e.desc, o.desc, keys[i])
					if e.kind == "doc" && o.kind == "doc" && e.cid == o.cid {
						l.Assert((keys[i] < keys[j]) == (e.did < o.did), "keys of %s and %s are not ordered by id", e.desc, o.desc)
					}
				}
			})
			r.Enum("ranges", len(ids), func(i int, l *hz.Log) {
				c := ids[i]
				for lg, p := range map[string][2]kv.Key{
					"dml":    {dml.AppendCollectionDocumentPrefix(nil, c), dml.AppendCollectionIndexNamePrefix(nil, c)},
					"legacy": {document.AppendCollectionDocumentPrefix(nil, c), document.AppendCollectionIndexNamePrefix(nil, c)},
				} {
					n := 0
					for j, e := range es {
						in := strings.HasPrefix(keys[j], string(p[0]))
						l.Assert(in == (e.kind == "doc" && e.cid == c), "%s: document range of %d and %s: %v", lg, c, e.desc, in)
						in2 := strings.HasPrefix(keys[j], string(p[1]))
						l.Assert(in2 == (e.kind == "iname" && e.cid == c), "%s: index name range of %d and %s: %v", lg, c, e.desc, in2)
						if in {
							n++
							l.Assert(keys[j] < string(p[0].PrefixNext()), "%s: %s lies behind its range", lg, e.desc)
						}
					}
					l.Logf("%s: %d keys in the document range of %d", lg, n, c)
				}
			})
		},
	})
	hz.Register("P12", &hz.Check{
		Level:  "exploration",
		Rule:   "every key over a boundary alphabet up to a length, every pair of keys, compared with a brute-force search over the universe of longer keys; all inputs distinct",
		Assume: []string{"bytes outside the alphabet behave like those inside"},
		Run: func(r *hz.R) {
			alpha := []byte{0, 1, 0x7f, 0xfe, 0xff}
			n := 4
			if !r.Quick {
				n = 5
			}
			ks := allStrings(alpha, n)
			univ := allStrings(alpha, n+1)
			r.Enum("successors", len(ks), func(i int, l *hz.Log) {
				s := ks[i]
				back := append([]byte(s), "canary"...)
				k := kv.Key(back[:len(s)])
				nx, pn := string(k.Next()), string(k.PrefixNext())
				l.Logf("%x next %x prefix next %x", s, nx, pn)
				l.Assert(string(back) == s+"canary", "the key (or what follows it) was modified")
				nb, pb := k.Next(), k.PrefixNext()
				for j := range nb {
					nb[j] ^= 0x55
				}
				for j := range pb {
					pb[j] ^= 0x55
				}
				cl := k.Clone()
				l.Assert(string(cl) == s, "Clone(%x) = %x", s, cl)
				for j := range cl {
					cl[j] ^= 0x55
				}
				_ = append(k.Clone(), 'x')
				l.Assert(string(back) == s+"canary", "a result aliases the key")
				l.Assert(k.String() == fmt.Sprintf("%x", s), "String(%x) = %s", s, k)
				allff := trimFF(s) == ""
				l.Assert(nx > s && pn > s, "a successor of %x is not greater: %x %x", s, nx, pn)
				for _, u := range univ {
					l.Obs++
					l.Assert(!(u > s && u < nx), "%x lies between %x and its next key %x", u, s, nx)
					if !allff {
						if strings.HasPrefix(u, s) {
							l.Assert(u < pn, "%x starts with %x but is not below the prefix successor %x", u, s, pn)
						} else {
							l.Assert(!(len(u) == len(s) && u > s && u < pn), "%x lies between everything starting with %x and the prefix successor %x", u, s, pn)
						}
					}
					l.Assert(k.HasPrefix(kv.Key(u)) == strings.HasPrefix(s, u), "HasPrefix(%x,%x)", s, u)
					l.Assert(k.Cmp(kv.Key(u)) == strings.Compare(s, u), "Cmp(%x,%x) = %d", s, u, k.Cmp(kv.Key(u)))
				}
				for _, e := range univ {
					rg := kv.KeyRange{StartKey: kv.Key(s), EndKey: kv.Key(e)}
					want := e == nx || e == pn
					l.Assert(rg.IsPoint() == want, "IsPoint([%x,%x)) = %v, successors are %x and %x", s, e, rg.IsPoint(), nx, pn)
					l.Assert(string(rg.StartKey) == s && string(rg.EndKey) == e, "IsPoint changed the range")
				}
			})
			// longer keys: carries over several bytes
			var long []string
			for a := 0; a <= 9; a++ {
				for b := 0; b <= 9; b++ {
					for _, c := range []string{"", "\x00", "\x01", "\xfe"} {
						long = append(long, strings.Repeat("a", a)+c+strings.Repeat("\xff", b))
					}
				}
			}
			r.Enum("carries", len(long), func(i int, l *hz.Log) {
				s := long[i]
				k := kv.Key(s)
				nx, pn := string(k.Next()), string(k.PrefixNext())
				l.Logf("%x next %x prefix next %x", s, nx, pn)
				l.Assert(nx == s+"\x00", "Next(%x) = %x", s, nx)
				t := trimFF(s)
				want := s + "\x00"
				if t != "" {
					want = t[:len(t)-1] + string([]byte{t[len(t)-1] + 1}) + strings.Repeat("\x00", len(s)-len(t))
				}
				l.Assert(pn == want, "PrefixNext(%x) = %x want %x", s, pn, want)
				for _, e := range append([]string{nx, pn, s, s + "\x01", s + "\x00\x00", want + "\x00"}, long...) {
					rg := kv.KeyRange{StartKey: kv.Key(s), EndKey: kv.Key(e)}
					l.Obs++
					l.Assert(rg.IsPoint() == (e == nx || e == pn), "IsPoint([%x,%x)) = %v", s, e, rg.IsPoint())
				}
			})
			// long keys, differing in one byte, at the end or in length
			var big []string
			for _, n := range []int{8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 5000} {
				for _, b := range []string{"a", "\xff", "\x00"} {
					w := strings.Repeat(b, n)
					big = append(big, w, w[:n-1]+"b", "b"+w[1:], w[:n/2]+"b"+w[n/2+1:], w[:n/2]+strings.Repeat("\xff", n-n/2), "a"+strings.Repeat("\xff", n-1))
				}
			}
			r.Enum("long keys", len(big), func(i int, l *hz.Log) {
				s := big[i]
				back := append([]byte(s), "canary"...)
				k := kv.Key(back[:len(s)])
				nx, pn, cl := k.Next(), k.PrefixNext(), k.Clone()
				l.Logf("%d bytes from %x to %x", len(s), s[:8], s[len(s)-8:])
				t := trimFF(s)
				want := s + "\x00"
				if t != "" {
					want = t[:len(t)-1] + string([]byte{t[len(t)-1] + 1}) + strings.Repeat("\x00", len(s)-len(t))
				}
				l.Assert(string(nx) == s+"\x00", "Next = %x", []byte(nx))
				l.Assert(string(pn) == want, "PrefixNext = %x", []byte(pn))
				l.Assert(string(cl) == s, "Clone = %x", []byte(cl))
				for _, x := range []kv.Key{nx, pn, cl} {
					for j := range x {
						x[j] ^= 0x55
					}
				}
				l.Assert(string(back) == s+"canary", "the key was modified or a result aliases it")
				for _, u := range append([]string{"", s + "\x00", want, want + "\x00", s + "\x01", s[:len(s)-1]}, big...) {
					l.Obs++
					o := kv.Key(u)
					l.Assert(k.HasPrefix(o) == strings.HasPrefix(s, u) && o.HasPrefix(k) == strings.HasPrefix(u, s), "HasPrefix with a key of %d bytes: %v, %v", len(u), k.HasPrefix(o), o.HasPrefix(k))
					l.Assert(k.Cmp(o) == strings.Compare(s, u), "Cmp with a key of %d bytes: %d", len(u), k.Cmp(o))
					rg := kv.KeyRange{StartKey: k, EndKey: o}
					l.Assert(rg.IsPoint() == (u == s+"\x00" || u == want), "IsPoint with a key of %d bytes = %v", len(u), rg.IsPoint())
				}
			})
		},
	})
}

func trimFF(s string) string {
	for len(s) > 0 && s[len(s)-1] == 0xff {
		s = s[:len(s)-1]
	}
	return s
}
