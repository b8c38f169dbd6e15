package main

import (
	"bytes"
	"fmt"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/client"
	"github.com/zhiqiangxu/mondis/kv"
)

// localClient drives a storage provider directly through the client
// interface, so that the same workloads and oracles judge it.
type localClient struct {
	kv mondis.KVDB
}

func localErr(err error) error {
	if err == nil || err == kv.ErrKeyNotFound || err == kv.ErrTxnTooBig {
		return err
	}
	return fmt.Errorf("pbError local %v", err)
}

func cp(b []byte) []byte { return append([]byte(nil), b...) }

func (l localClient) Set(k, v []byte, m *mondis.VMetaReq) error {
	return localErr(l.kv.Set(cp(k), cp(v), m))
}
func (l localClient) Exists(k []byte) (bool, error) {
	ok, err := l.kv.Exists(k)
	return ok, localErr(err)
}
func (l localClient) Get(k []byte) ([]byte, mondis.VMetaResp, error) {
	v, m, err := l.kv.Get(k)
	return v, m, localErr(err)
}

// scribble overwrites buffers that belong to the caller again.
func scribble(err error, bufs ...[]byte) {
	if err != nil {
		return
	}
	for _, b := range bufs {
		for i := range b {
			b[i] ^= 0x5a
		}
	}
}

func (l localClient) Delete(k []byte) error { return localErr(l.kv.Delete(cp(k))) }

func localScan(kv mondis.ProviderKVOP, o mondis.ScanOption) (es []mondis.Entry, err error) {
	if o.Limit <= 0 {
		return
	}
	lim := o.Limit
	if lim > mondis.MaxEntry {
		lim = mondis.MaxEntry
	}
	err = kv.Scan(o.ProviderScanOption, func(k, v []byte, m mondis.VMetaResp) bool {
		es = append(es, mondis.Entry{Key: cp(k), Value: cp(v), Meta: m})
		if len(es) > lim {
			err = fmt.Errorf("scan goes on after its callback returned false")
		}
		return len(es) < lim
	})
	return es, localErr(err)
}

func (l localClient) Scan(o mondis.ScanOption) ([]mondis.Entry, error) { return localScan(l.kv, o) }

func (l localClient) Update(fn func(mondis.Txn) error) error {
	t := l.kv.NewTransaction(true)
	defer t.Discard()
	if err := fn(localTxn{t, true}); err != nil {
		return err
	}
	return localErr(t.Commit())
}
func (l localClient) View(fn func(mondis.Txn) error) error {
	t := l.kv.NewTransaction(false)
	defer t.Discard()
	return fn(localTxn{t, false})
}

type localTxn struct {
	t      mondis.ProviderTxn
	update bool
}

func (x localTxn) Set(k, v []byte, m *mondis.VMetaReq) error {
	if !x.update {
		return client.ErrMutateForROTxn
	}
	return localErr(x.t.Set(cp(k), cp(v), m))
}
func (x localTxn) Exists(k []byte) (bool, error) {
	ok, err := x.t.Exists(k)
	return ok, localErr(err)
}
func (x localTxn) Get(k []byte) ([]byte, mondis.VMetaResp, error) {
	v, m, err := x.t.Get(k)
	return v, m, localErr(err)
}
func (x localTxn) Delete(k []byte) error {
	if !x.update {
		return client.ErrMutateForROTxn
	}
	return localErr(x.t.Delete(cp(k)))
}
func (x localTxn) Scan(o mondis.ScanOption) ([]mondis.Entry, error) { return localScan(x.t, o) }
func (x localTxn) Commit() error                                    { return localErr(x.t.Commit()) }
func (x localTxn) Discard()                                         { x.t.Discard() }

// static is a block of keys that nobody changes during the run.
type static struct {
	prefix string
	n      int
}

func (s *static) key(i int) string { return fmt.Sprintf("%s%04d", s.prefix, i) }
func (s *static) val(i int) string { return fmt.Sprintf("static%d", i) }

// load writes the block into the store.
func (s *static) load(r *Run, kv mondis.KVDB) {
	for i := 0; i < s.n; {
		wb := kv.WriteBatch()
		for j := 0; j < 300 && i < s.n; j++ {
			if err := wb.Set([]byte(s.key(i)), []byte(s.val(i))); err != nil {
				r.Fail("unexpected-error:batch", "WriteBatch.Set failed: %v", err)
			}
			i++
		}
		if err := wb.Commit(); err != nil {
			r.Fail("unexpected-error:batch", "WriteBatch.Commit failed: %v", err)
		}
		wb.Discard()
	}
}

// checkStatic judges the entries of a scan that belong to the static block,
// and returns the others.
func (s *static) split(r *Run, name string, o mondis.ScanOption, lim int, es []mondis.Entry) (rest []mondis.Entry) {
	got := map[string]string{}
	var last []byte
	for _, e := range es {
		last = e.Key
		if s.n > 0 && bytes.HasPrefix(e.Key, []byte(s.prefix)) && len(e.Key) == len(s.prefix)+4 {
			if e.Meta.Tag != 0 || e.Meta.ExpiresAt != 0 {
				r.Fail("scan-value", "%s returned %q with meta %+v", name, e.Key, e.Meta)
			}
			got[string(e.Key)] = string(e.Value)
			continue
		}
		rest = append(rest, e)
	}
	full := len(es) >= lim
	for i := 0; i < s.n; i++ {
		k := []byte(s.key(i))
		if !inScan(k, o) {
			continue
		}
		if full {
			c := bytes.Compare(k, last)
			if (c > 0 && !o.Reverse) || (c < 0 && o.Reverse) {
				continue
			}
		}
		if v, ok := got[string(k)]; !ok {
			r.Fail("scan-missing", "%s misses key %q", name, k)
		} else if v != s.val(i) {
			r.Fail("scan-value", "%s returned %q with value %q instead of %q", name, k, short(v), s.val(i))
		}
		delete(got, string(k))
	}
	for k := range got {
		r.Fail("scan-foreign", "%s returned key %q, which nobody ever wrote", name, k)
	}
	return
}
