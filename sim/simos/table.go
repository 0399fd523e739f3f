package simos

import "sort"

// table maps paths to nodes. A builtin map, and copy and
// append of slices, would report their accesses to the race detector, which sees no order between tasks of the simulation.
type table struct {
	names []string
	nodes []*Node
}

func (t *table) find(p string) (int, bool) {
	i := sort.SearchStrings(t.names, p)
	return i, i < len(t.names) && t.names[i] == p
}

func (t *table) get(p string) *Node {
	if i, ok := t.find(p); ok {
		return t.nodes[i]
	}
	return nil
}

func (t *table) put(p string, n *Node) {
	i, ok := t.find(p)
	if ok {
		t.nodes[i] = n
		return
	}
	t.names, t.nodes = append(t.names, p), append(t.nodes, n)
	for k := len(t.names) - 1; k > i; k-- {
		t.names[k], t.nodes[k] = t.names[k-1], t.nodes[k-1]
	}
	t.names[i], t.nodes[i] = p, n
}

func (t *table) del(p string) {
	i, ok := t.find(p)
	if !ok {
		return
	}
	for n := len(t.names) - 1; i < n; i++ {
		t.names[i], t.nodes[i] = t.names[i+1], t.nodes[i+1]
	}
	t.names, t.nodes = t.names[:i], t.nodes[:i]
}
