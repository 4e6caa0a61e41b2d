package main

// Simulated disk: an ordered key-value store with the crash semantics of the
// goleveldb journal the real node uses. Every write operation (single key or
// whole batch) is atomic; operations after the last synced one may be lost, in
// reverse order, on power loss; a process crash keeps all completed operations.

import (
	"bytes"
	"errors"
	"fmt"
	"sync"

	dbm "github.com/cosmos/cosmos-db"
	"github.com/tidwall/btree"
)

type dbItem struct{ k, v []byte }

func dbLess(a, b dbItem) bool { return bytes.Compare(a.k, b.k) < 0 }

type undoRec struct {
	k       []byte
	old     []byte
	existed bool
}

type crashPanic struct{ at string }

var errDiskFull = errors.New("no space left on device")
var errDiskIO = errors.New("input/output error")

type simDisk struct {
	mu      sync.Mutex
	tr      *btree.BTreeG[dbItem]
	journal [][]undoRec // one entry per write op since last sync

	crashAtWrite int // crash instead of performing the n-th write from now (1-based), 0 = never
	crashAfter   bool
	failAtWrite  int // the n-th write from now fails
	failErr      error
	full         bool // every write fails until cleared
	crashAtRead  int
	dead         bool // the process using the disk is gone: no more operations
	Writes       int
	Reads        int
	WritesTotal  int
	failed       int
}

func newSimDisk() *simDisk {
	return &simDisk{tr: btree.NewBTreeGOptions(dbLess, btree.Options{NoLocks: true})}
}

func (d *simDisk) clone() *simDisk {
	d.mu.Lock()
	defer d.mu.Unlock()
	return &simDisk{tr: d.tr.IsoCopy()}
}

func (d *simDisk) arm() { d.Writes, d.Reads, d.failed = 0, 0, 0 }
func (d *simDisk) disarm() {
	d.crashAtWrite, d.failAtWrite, d.crashAtRead, d.crashAfter = 0, 0, 0, false
}

// powerLoss drops the newest `lost` unsynced operations (-1 = all).
func (d *simDisk) powerLoss(lost int) int {
	n := len(d.journal)
	if lost < 0 || lost > n {
		lost = n
	}
	for i := 0; i < lost; i++ {
		rec := d.journal[len(d.journal)-1]
		d.journal = d.journal[:len(d.journal)-1]
		for j := len(rec) - 1; j >= 0; j-- {
			if rec[j].existed {
				d.tr.Set(dbItem{rec[j].k, rec[j].old})
			} else {
				d.tr.Delete(dbItem{k: rec[j].k})
			}
		}
	}
	d.journal = nil
	return lost
}

type dbOp struct {
	k, v []byte
	del  bool
}

func (d *simDisk) read() {
	if d.dead {
		panic(crashPanic{"dead"})
	}
	d.Reads++
	if d.crashAtRead > 0 && d.Reads == d.crashAtRead {
		d.dead = true
		panic(crashPanic{fmt.Sprintf("read %d", d.Reads)})
	}
}

func (d *simDisk) write(ops []dbOp, sync bool) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.dead {
		panic(crashPanic{"dead"})
	}
	d.Writes++
	d.WritesTotal++
	if d.full {
		d.failed++
		return errDiskFull
	}
	if d.failAtWrite > 0 && d.Writes == d.failAtWrite {
		d.failed++
		return d.failErr
	}
	if d.crashAtWrite > 0 && d.Writes == d.crashAtWrite && !d.crashAfter {
		d.dead = true
		panic(crashPanic{fmt.Sprintf("before write %d", d.Writes)})
	}
	rec := make([]undoRec, 0, len(ops))
	for _, o := range ops {
		old, existed := d.tr.Get(dbItem{k: o.k})
		rec = append(rec, undoRec{o.k, old.v, existed})
		if o.del {
			d.tr.Delete(dbItem{k: o.k})
		} else {
			d.tr.Set(dbItem{o.k, o.v})
		}
	}
	if sync {
		d.journal = nil
	} else {
		d.journal = append(d.journal, rec)
	}
	if d.crashAtWrite > 0 && d.Writes == d.crashAtWrite && d.crashAfter {
		d.dead = true
		panic(crashPanic{fmt.Sprintf("after write %d", d.Writes)})
	}
	return nil
}

// simDB is the handle one node process holds on its disk.
type simDB struct{ d *simDisk }

var _ dbm.DB = (*simDB)(nil)

func cpb(b []byte) []byte { return append([]byte{}, b...) }

func (s *simDB) Get(k []byte) ([]byte, error) {
	if len(k) == 0 {
		return nil, errors.New("key cannot be empty")
	}
	s.d.mu.Lock()
	defer s.d.mu.Unlock()
	s.d.read()
	it, ok := s.d.tr.Get(dbItem{k: k})
	if !ok {
		return nil, nil
	}
	return cpb(it.v), nil
}
func (s *simDB) Has(k []byte) (bool, error) {
	v, err := s.Get(k)
	return v != nil, err
}
func (s *simDB) Set(k, v []byte) error {
	if len(k) == 0 || v == nil {
		return errors.New("key or value cannot be empty")
	}
	return s.d.write([]dbOp{{cpb(k), cpb(v), false}}, false)
}
func (s *simDB) SetSync(k, v []byte) error {
	if len(k) == 0 || v == nil {
		return errors.New("key or value cannot be empty")
	}
	return s.d.write([]dbOp{{cpb(k), cpb(v), false}}, true)
}
func (s *simDB) Delete(k []byte) error     { return s.d.write([]dbOp{{cpb(k), nil, true}}, false) }
func (s *simDB) DeleteSync(k []byte) error { return s.d.write([]dbOp{{cpb(k), nil, true}}, true) }
func (s *simDB) Close() error              { return nil }
func (s *simDB) Print() error              { return nil }
func (s *simDB) Stats() map[string]string  { return map[string]string{} }
func (s *simDB) NewBatch() dbm.Batch       { return &simBatch{s: s} }
func (s *simDB) NewBatchWithSize(int) dbm.Batch {
	return &simBatch{s: s}
}

type simBatch struct {
	s    *simDB
	ops  []dbOp
	size int
	done bool
}

func (b *simBatch) Set(k, v []byte) error {
	if len(k) == 0 || v == nil {
		return errors.New("key or value cannot be empty")
	}
	if b.done {
		return errors.New("batch has been written or closed")
	}
	b.ops = append(b.ops, dbOp{cpb(k), cpb(v), false})
	b.size += len(k) + len(v)
	return nil
}
func (b *simBatch) Delete(k []byte) error {
	if len(k) == 0 {
		return errors.New("key cannot be empty")
	}
	if b.done {
		return errors.New("batch has been written or closed")
	}
	b.ops = append(b.ops, dbOp{cpb(k), nil, true})
	b.size += len(k)
	return nil
}
func (b *simBatch) write(sync bool) error {
	if b.done {
		return errors.New("batch has been written or closed")
	}
	if err := b.s.d.write(b.ops, sync); err != nil {
		return err
	}
	b.done = true
	return nil
}
func (b *simBatch) Write() error              { return b.write(false) }
func (b *simBatch) WriteSync() error          { return b.write(true) }
func (b *simBatch) Close() error              { b.ops, b.done = nil, true; return nil }
func (b *simBatch) GetByteSize() (int, error) { return b.size, nil }

func (s *simDB) Iterator(start, end []byte) (dbm.Iterator, error) {
	return s.iter(start, end, false)
}
func (s *simDB) ReverseIterator(start, end []byte) (dbm.Iterator, error) {
	return s.iter(start, end, true)
}
func (s *simDB) iter(start, end []byte, rev bool) (dbm.Iterator, error) {
	if (start != nil && len(start) == 0) || (end != nil && len(end) == 0) {
		return nil, errors.New("key cannot be empty")
	}
	s.d.mu.Lock()
	defer s.d.mu.Unlock()
	s.d.read()
	it := &simIter{start: start, end: end, rev: rev, it: s.d.tr.IsoCopy().Iter()}
	if !rev {
		if start == nil {
			it.valid = it.it.First()
		} else {
			it.valid = it.it.Seek(dbItem{k: start})
		}
	} else {
		if end == nil {
			it.valid = it.it.Last()
		} else if it.it.Seek(dbItem{k: end}) {
			it.valid = it.it.Prev()
		} else {
			it.valid = it.it.Last()
		}
	}
	it.check()
	return it, nil
}

type simIter struct {
	start, end []byte
	rev        bool
	it         btree.IterG[dbItem]
	valid      bool
}

func (i *simIter) check() {
	if !i.valid {
		return
	}
	k := i.it.Item().k
	if i.rev && i.start != nil && bytes.Compare(k, i.start) < 0 {
		i.valid = false
	}
	if !i.rev && i.end != nil && bytes.Compare(k, i.end) >= 0 {
		i.valid = false
	}
}
func (i *simIter) Domain() ([]byte, []byte) { return i.start, i.end }
func (i *simIter) Valid() bool              { return i.valid }
func (i *simIter) Next() {
	if !i.valid {
		panic("iterator is invalid")
	}
	if i.rev {
		i.valid = i.it.Prev()
	} else {
		i.valid = i.it.Next()
	}
	i.check()
}
func (i *simIter) Key() []byte   { return cpb(i.it.Item().k) }
func (i *simIter) Value() []byte { return cpb(i.it.Item().v) }
func (i *simIter) Error() error  { return nil }
func (i *simIter) Close() error  { i.it.Release(); return nil }
