package sim

import (
	"fmt"
	"unsafe"
)

// The Go runtime ends a process that writes a map while another goroutine writes
// or reads it. WM holds a write open across a scheduling point, and a task that
// comes to the same map meanwhile is that crash.

type mapWrite struct {
	t    *Task
	site int32
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// RM stands at a read of a map.
func RM[M ~map[K]V, K comparable, V any](m M, site int32) M {
	if s := current.Load(); s != nil && len(s.mapWrites) > 0 && m != nil {
		s.mapAccess(mapPtr(m), site, "read")
	}
	return m
}

// WM stands at a write of a map.
func WM[M ~map[K]V, K comparable, V any](m M, site int32) M {
	if s := current.Load(); s != nil && m != nil && getLabel() != nil {
		if t := s.cur(); t != nil && s.token == t && !s.dead {
			p := mapPtr(m)
			s.mapAccess(p, site, "write")
			if s.mapWrites == nil {
				s.mapWrites = map[unsafe.Pointer]mapWrite{}
			}
			s.mapWrites[p] = mapWrite{t, site}
			defer delete(s.mapWrites, p)
			s.yield(t, site)
		}
	}
	return m
}

func (s *Sim) mapAccess(p unsafe.Pointer, site int32, what string) {
	w, ok := s.mapWrites[p]
	if !ok || getLabel() == nil || s.dead {
		return
	}
	if t := s.cur(); t != nil && s.token == t && t != w.t && !w.t.Done() && !w.t.crashed && !s.Failed() {
		s.Fail("concurrent-map", "%s", fmt.Sprintf("%s at %s of a map that %s is writing at %s: the process dies with \"concurrent map %s and map write\"", what, SiteName(site), w.t.Name, SiteName(w.site), what))
	}
}
