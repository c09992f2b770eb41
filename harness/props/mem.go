package props

import (
	"syscall"
)

// pages is memory of its own, with an inaccessible page on either side, for
// input that must be neither written to nor read beyond its end.
type pages struct {
	all  []byte
	mid  []byte
	used []byte
}

const pageSize = 4096

// newPages maps n pages between two guard pages.
func newPages(n int) *pages {
	all, err := syscall.Mmap(-1, 0, (n+2)*pageSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic("harness: mmap: " + err.Error())
	}
	p := &pages{all: all, mid: all[pageSize : (n+1)*pageSize]}
	p.protect(all[:pageSize], syscall.PROT_NONE)
	p.protect(all[(n+1)*pageSize:], syscall.PROT_NONE)
	return p
}

func (p *pages) protect(b []byte, prot int) {
	if err := syscall.Mprotect(b, prot); err != nil {
		panic("harness: mprotect: " + err.Error())
	}
}

// put stores b at the end of the pages, or at the start, and write-protects it.
// It returns nil if there is no room.
func (p *pages) put(b []byte, atStart bool) []byte {
	if len(b) > len(p.mid) {
		return nil
	}
	p.protect(p.mid, syscall.PROT_READ|syscall.PROT_WRITE)
	for i := range p.mid {
		p.mid[i] = '"'
	}
	off := len(p.mid) - len(b)
	if atStart {
		off = 0
	}
	copy(p.mid[off:], b)
	p.protect(p.mid, syscall.PROT_READ)
	p.used = p.mid[off : off+len(b) : off+len(b)]
	return p.used
}

// clobber overwrites everything.
func (p *pages) clobber(with byte) {
	p.protect(p.mid, syscall.PROT_READ|syscall.PROT_WRITE)
	for i := range p.mid {
		p.mid[i] = with
	}
}

func (p *pages) free() { _ = syscall.Munmap(p.all) }
