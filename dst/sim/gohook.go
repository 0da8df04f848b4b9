package sim

import "fmt"

// GoStmt replaces the go statement in the code under test.
func GoStmt(fn func()) {
	s := current.Load()
	t := CurTask()
	if s == nil || t == nil {
		go fn()
		return
	}
	s.Go(t.Group, fmt.Sprintf("%s/go", t.Name), fn)
}
