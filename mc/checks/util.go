// Package checks holds the sequential (single driver goroutine) property checks.
package checks

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
)

// outcome class of an error: what callers can rely on
func cls(err error) string {
	switch err {
	case nil:
		return "ok"
	case kv.ErrKeyNotFound:
		return "notfound"
	case kv.ErrTxnTooBig:
		return "toobig"
	}
	return "err"
}

func q(b []byte) string { return fmt.Sprintf("%q", b) }

func eqB(a []byte, b string) bool { return string(a) == b }

func sortedKeys(m map[string]string) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func cloneMap(m map[string]string) map[string]string {
	r := make(map[string]string, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func mapKey(m map[string]string) string {
	var b strings.Builder
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(&b, "%q=%q,", k, m[k])
	}
	return b.String()
}

// dump all entries visible to a transaction
func dumpTxn(t mondis.ProviderKVOP) (map[string]string, error) {
	m := map[string]string{}
	err := t.Scan(mondis.ProviderScanOption{}, func(k, v []byte, _ mondis.VMetaResp) bool {
		m[string(k)] = string(v)
		return true
	})
	return m, err
}

func short(s string) string {
	if len(s) > 12 {
		return fmt.Sprintf("%s..(%d)", s[:12], len(s))
	}
	return s
}

// roomy lays prefixes out one behind the other in a single buffer, so that each has spare
// capacity which holds bytes that are somebody else's.
type roomy struct {
	all  []byte
	pref [][]byte
}

func newRoomy(prefixes ...string) *roomy {
	r := &roomy{}
	n := 96
	for _, p := range prefixes {
		n += len(p)
	}
	r.all = bytes.Repeat([]byte{0xee}, n)
	at := 0
	for _, p := range prefixes {
		copy(r.all[at:], p)
		r.pref = append(r.pref, r.all[at:at+len(p)])
		at += len(p)
	}
	return r
}

// intact tells whether nobody wrote to the buffer.
func (r *roomy) intact(prefixes ...string) bool {
	return bytes.Equal(r.all, newRoomy(prefixes...).all)
}
