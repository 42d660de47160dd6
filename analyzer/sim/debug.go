package sim

import (
	"fmt"
	"sort"
	"strings"
)

// Dump renders a state for debugging.
func (st *State) Dump() string {
	var p []string
	for i, f := range st.frames {
		for k, v := range f.env {
			p = append(p, fmt.Sprintf("env%d %s.%s = %s #%d", i, f.fn.Name(), k.Name(), v, v.id))
		}
		for _, d := range f.defers {
			p = append(p, fmt.Sprintf("defer%d %v %v", i, d.fn, d.args))
		}
	}
	for k, v := range st.heap {
		p = append(p, fmt.Sprintf("heap %s = %s  (#%d=#%d) %s", k, v, k.id, v.id, v.Name))
	}
	for k, v := range st.facts {
		p = append(p, fmt.Sprintf("fact %s #%d: %s", k, k.id, v.key()))
	}
	for k, v := range st.Tags {
		p = append(p, fmt.Sprintf("tag %s %v = %s", k.Kind, k.V, v))
	}
	for e := range st.esc {
		p = append(p, "esc "+e)
	}
	p = append(p, "epoch "+st.epoch)
	sort.Strings(p)
	return strings.Join(p, "\n")
}
