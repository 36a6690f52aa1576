package main

import (
	"os"
	"sync/atomic"
	"syscall"
	"unsafe"
)

const maxSlots = 64

// slot says which case a worker is running; it lives in a shared file mapping
// so that the supervisor can read it while, and after, the child runs.
type slot struct {
	seq    uint64 // odd: running
	stream uint64
	index  uint64
	_      [5]uint64
}

type journal struct{ slots *[maxSlots]slot }

func openJournal(path string) (*journal, error) {
	if path == "" {
		return &journal{slots: new([maxSlots]slot)}, nil
	}
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	size := int(unsafe.Sizeof([maxSlots]slot{}))
	if err := f.Truncate(int64(size)); err != nil {
		return nil, err
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &journal{slots: (*[maxSlots]slot)(unsafe.Pointer(&b[0]))}, nil
}

func (j *journal) slot(i int) *slot { return &j.slots[i] }

func (s *slot) enter(stream, index int) {
	atomic.StoreUint64(&s.stream, uint64(stream))
	atomic.StoreUint64(&s.index, uint64(index))
	atomic.AddUint64(&s.seq, 1)
}

func (s *slot) leave() { atomic.AddUint64(&s.seq, 1) }

func (s *slot) read() (seq uint64, stream, index int) {
	return atomic.LoadUint64(&s.seq), int(atomic.LoadUint64(&s.stream)), int(atomic.LoadUint64(&s.index))
}
