package main

type bakedReader interface {
	IndexOfHash(*[32]byte) (int64, error)
	GetHashAtIndex(int64, *[32]byte) error
	Close() error
}

type bakedStore interface {
	bakedReader
	AppendHash(*[32]byte) (int64, error)
	Sync() error
}

// A bake is a scaled-down cake, which a few hashes make to bake its tiers.
type bake struct {
	name   string
	create func(dir string) error
	open   func(dir string) (bakedStore, error)
	read   func(dir string) (bakedReader, error)
}

var bakes []bake

type bakedRW struct{ bakedStore }
type bakedR struct{ bakedReader }

func (x bakedRW) CountHashes() (int64, error) { return countByReading(x.GetHashAtIndex) }
func (x bakedR) CountHashes() (int64, error)  { return countByReading(x.GetHashAtIndex) }

// bakedKinds are kinds of stores of which only what no error was reported of is judged: a bake that fails, like one
// that is interrupted, may leave the cake unreadable.
func bakedKinds() (ks []*kind) {
	for _, b := range bakes {
		k := hashKind(b.name, b.create,
			func(dir string) (indexedRW, error) {
				s, err := b.open(dir)
				if err != nil {
					return nil, err
				}
				return bakedRW{s}, nil
			},
			func(dir string) (indexed, error) {
				s, err := b.read(dir)
				if err != nil {
					return nil, err
				}
				return bakedR{s}, nil
			})
		baked[k.name] = true
		k.long = [][]int{{0, 0, 0, 3, 0, 1}, {0, 0, 0, 0, 0, 0, 0}, {0, 0, 3, 0, 0, 3, 2}}
		ks = append(ks, k)
	}
	return
}

var baked = map[string]bool{}
