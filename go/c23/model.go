package main

import "fmt"

// Every store is seen as lists of records: list 0, list 1, ... A record is what one place of a list holds; "" stands
// for an empty place.
type record = string

// A write is what an operation asks of the store; operations that store nothing have none.
type write struct {
	list, index int
	val         record
}

type store interface {
	do(op string, w []write) error
	sync() error
	close() error
}

// model is what was asked of the store so far.
type model struct {
	lists  [][]record            // the newest contents
	synced [][]record            // the contents at the last successful sync
	since  map[[2]int]([]record) // values that places have had since then
	grow   int                   // counter from which new values are made
	lost   *model                // what the abandoned process had asked for
	loose  map[[2]int]bool       // places that survived an earlier crash though never synced
}

func newModel(lists int) *model {
	return &model{lists: make([][]record, lists), synced: make([][]record, lists), since: map[[2]int][]record{}}
}

func (m *model) set(l, i int, v record) {
	for len(m.lists[l]) <= i {
		m.lists[l] = append(m.lists[l], "")
		m.since[[2]int{l, len(m.lists[l]) - 1}] = []record{""}
	}
	k := [2]int{l, i}
	if m.since[k] == nil {
		m.since[k] = []record{m.lists[l][i]}
	}
	m.since[k] = append(m.since[k], v)
	m.lists[l][i] = v
}

func (m *model) acked() {
	for l := range m.lists {
		m.synced[l] = append([]record{}, m.lists[l]...)
	}
	m.since = map[[2]int][]record{}
}

func (m *model) clone() *model {
	n := newModel(len(m.lists))
	n.grow = m.grow
	for l := range m.lists {
		n.lists[l] = append([]record{}, m.lists[l]...)
		n.synced[l] = append([]record{}, m.synced[l]...)
	}
	for k, v := range m.since {
		n.since[k] = append([]record{}, v...)
	}
	return n
}

func (m *model) String() string {
	return fmt.Sprintf("%q of which %q was synced", m.lists, m.synced)
}

type changed struct {
	list, index int
	got, want   record
}

func (c *changed) Error() string {
	return fmt.Sprintf("record %d of list %d reads %q; it was synced as %q", c.index, c.list, c.got, c.want)
}

// judge compares what a reopened store holds with the model: at least what was synced, anything else whole or absent.
func (m *model) judge(got [][]record) error {
	for l := range m.lists {
		if len(got[l]) < len(m.synced[l]) {
			return fmt.Errorf("list %d holds %d records; %d were synced", l, len(got[l]), len(m.synced[l]))
		}
		if len(got[l]) > len(m.lists[l]) {
			return fmt.Errorf("list %d holds %d records; only %d were ever stored", l, len(got[l]), len(m.lists[l]))
		}
		for i, v := range got[l] {
			if may, ok := m.since[[2]int{l, i}]; ok {
				there := false
				for _, w := range may {
					there = there || v == w
				}
				if !there {
					return fmt.Errorf("record %d of list %d reads %q; it held one of %q since the sync", i, l, v, may)
				}
			} else if v != m.lists[l][i] {
				return &changed{l, i, v, m.lists[l][i]}
			}
		}
	}
	return nil
}

type kind struct {
	name           string
	ops            []string // the alphabet; "sync" and "close and reopen" mean the same for every kind
	lists          int
	depthQ, depthT int
	tear           func(rel string, old, n int) []int
	create         func(dir string) error
	open           func(dir string) (store, error)
	plan           func(m *model, op string) []write              // what an operation stores, given what is there
	read           func(dir string, m *model) ([][]record, error) // the contents as a fresh process sees them
	resume         string                                         // the operation with which the store goes on afterwards
	again          bool                                           // it may also go on with the very records that were lost
	known          func(err error, before *model) string          // the key of a recorded finding
	long           [][]int                                        // longer histories besides
}

func bytewise(rel string, old, n int) (at []int) {
	for i := 1; i < n; i++ {
		if n <= 16 || i%7 == 1 || i == n-1 {
			at = append(at, i)
		}
	}
	return
}
