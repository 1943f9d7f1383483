package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/KitchenMishap/pudding-shed/chainstorage"
	chain "github.com/KitchenMishap/pudding-shed/zz_verif/xchain"
)

func wrongf(f string, a ...any) error { return wrong(fmt.Sprintf(f, a...)) }

// ---- the lists of hashes of a chain

var hashFolders = []string{"Blocks", "Transactions", "Addresses"}

type hashesChain struct {
	w   *chain.World
	c   chainstorage.IAppendableHashesChain
	chi bool
}

func (s hashesChain) do(op string, ws []write) error {
	b := num(ws[0].val)
	src := &chain.Model{W: s.w}
	if s.chi {
		h, err := src.Chi().GenesisBlock()
		for i := int64(0); err == nil && i < b; i++ {
			h, err = src.Chi().NextBlock(h)
		}
		if err != nil {
			return err
		}
		return s.c.AppendHashesChi(src.Chi(), h)
	}
	h := src.GenesisBlock()
	for i := int64(0); i < b; i++ {
		var err error
		if h, err = src.NextBlock(h); err != nil {
			return err
		}
	}
	return s.c.AppendHashesCri(src, h, b)
}
func (s hashesChain) sync() error  { return s.c.Sync() }
func (s hashesChain) close() error { s.c.Close(); return nil }

func hashesChainKind(chi bool) *kind {
	w := chain.Describe(chain.Of([]int{0, 1, 3, 2, 6, 0, 1, 2, 0, 1, 0}))
	k := &kind{name: fmt.Sprintf("hash lists of a chain (handle interface %v)", chi), lists: 3, depthQ: 4, depthT: 6,
		ops:    []string{"append a block", "sync", "close and reopen"},
		resume: "append a block",
		tear: func(rel string, old, n int) (at []int) {
			for k := 32; k < n; k += 32 {
				at = append(at, k)
			}
			return
		},
		create: func(dir string) error { return chainstorage.NewConcreteHashesChainCreator(dir).Create() },
		open: func(dir string) (store, error) {
			c, err := chainstorage.NewConcreteHashesChainCreator(dir).Open()
			return hashesChain{w, c, chi}, err
		},
		plan: func(m *model, op string) (ws []write) {
			b := len(m.lists[0])
			f := &w.Blocks[b]
			ws = append(ws, write{0, b, lab(int64(b))})
			outs := len(m.lists[2])
			for i := 0; i < f.Txs; i++ {
				ws = append(ws, write{1, len(m.lists[1]) + i, lab(int64(f.First + i))})
				tx := &w.Tx[f.First+i]
				for o := 0; o < tx.Outs; o++ {
					ws = append(ws, write{2, outs, lab(int64(tx.FirstOut + o))})
					outs++
				}
			}
			return
		},
	}
	label := [3]map[[32]byte]record{{}, {}, {}}
	for i := len(w.Blocks) - 1; i >= 0; i-- {
		label[0][w.Blocks[i].Hash] = lab(int64(i))
	}
	for i := len(w.Tx) - 1; i >= 0; i-- {
		label[1][w.Tx[i].Id] = lab(int64(i))
	}
	for i := len(w.Out) - 1; i >= 0; i-- {
		label[2][w.AddrHash[w.Out[i].Addr]] = lab(int64(i))
	}
	k.read = func(dir string, m *model) ([][]record, error) {
		c, err := chainstorage.NewConcreteHashesChainCreator(dir).Open()
		if err != nil {
			return nil, err
		}
		var n [3]int64
		n[0], n[1], n[2], err = c.CountHashes()
		c.Close()
		if err != nil {
			return nil, err
		}
		got := make([][]record, 3)
		for l, f := range hashFolders {
			b, err := os.ReadFile(filepath.Join(dir, f, "Hashes", "Hashes.hsh"))
			if err != nil {
				return nil, err
			}
			if int64(len(b)/32) != n[l] {
				return nil, wrongf("%d hashes of %s are counted; the file holds %d", n[l], f, len(b)/32)
			}
			for i := 0; i+32 <= len(b); i += 32 {
				var h [32]byte
				copy(h[:], b[i:])
				v, ok := label[l][h]
				if !ok {
					v = fmt.Sprintf("%x", h)
				}
				// (outputs to one address share its hash: name the one that is meant to be here)
				if j := i / 32; l == 1 && j < len(m.lists[1]) && ok { // the same for repeated transactions
					if n := num(m.lists[1][j]); w.Tx[n].Id == h {
						v = m.lists[1][j]
					}
				}
				if j := i / 32; l == 2 && j < len(m.lists[2]) && ok {
					if o := num(m.lists[2][j]); w.AddrHash[w.Out[o].Addr] == h {
						v = m.lists[2][j]
					}
				}
				got[l] = append(got[l], v)
			}
		}
		return got, nil
	}
	return k
}
