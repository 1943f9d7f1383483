package indexedhashestree

import (
	"reflect"
	"sort"
)

// Access for the checks in /verif, by the same steps and names as the package's own tests.

type VerifTree struct {
	stc    *shallowTreeContainer
	nc     *nodeContainer
	params *containerParams
}

func NewVerifTree() *VerifTree {
	return &VerifTree{stc: newShallowTreeContainer(), params: newContainerParamsConfigA()}
}

// Generate presents the hashes with consecutive indices from first; true means they do not fit.
func (v *VerifTree) Generate(hashes [][32]byte, first int64) (bool, bool) {
	in := make([]shallowTreeHash, len(hashes))
	for i := range hashes {
		in[i].hash = hashes[i]
		in[i].presentationIndex = first + int64(i)
	}
	overflow := v.stc.generate(in)
	unchanged := true
	for i := range hashes {
		if in[i].hash != hashes[i] || in[i].presentationIndex != first+int64(i) {
			unchanged = false
		}
	}
	v.nc = nil
	return overflow, unchanged
}

// Serialise lays the tree out as fixed-size nodes.
func (v *VerifTree) Serialise() {
	nodes := v.params.sliceOfNodesFromShallowTree(v.stc)
	sort.Slice(nodes, func(i, j int) bool { return v.params.Less(nodes[i].fixedNodeSpec, nodes[j].fixedNodeSpec) })
	v.nc = v.params.serializeMultiFixedSizedNodeTree(nodes, v.stc)
}

func (v *VerifTree) Shallow(h [32]byte) (int64, bool) { return v.stc.lookupHash(h) }

func (v *VerifTree) Fixed(h [32]byte) (int64, bool, uint32) { return v.nc.lookupHash(h, v.params) }

func (v *VerifTree) Nodes() int { return len(v.stc.nodesPool) }

func (v *VerifTree) Bytes() int { return len(v.nc.bytes) }

// LevelSizes gives the bytes of each level, nil if the container does not say.
func (v *VerifTree) LevelSizes() []int {
	f := reflect.ValueOf(v.nc).Elem().FieldByName("nodeLevelBytes")
	if !f.IsValid() || f.Kind() != reflect.Slice {
		return nil
	}
	var out []int
	for i := 0; i < f.Len(); i++ {
		out = append(out, f.Index(i).Len())
	}
	return out
}

// Truncated has only the first n bytes of the nodes loaded.
func (v *VerifTree) Truncated(n int) *VerifTree {
	nc := *v.nc
	nc.bytes = nc.bytes[:n]
	return &VerifTree{stc: v.stc, nc: &nc, params: v.params}
}
