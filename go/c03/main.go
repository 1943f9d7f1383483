// C03: numbered storage paths never collide and group numbers consistently.
package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/KitchenMishap/pudding-shed/numberedfolders"
	"github.com/KitchenMishap/pudding-shed/zz_verif/vk"
)

func pow10(d int) int64 {
	r := int64(1)
	for i := 0; i < d; i++ {
		r *= 10
	}
	return r
}

type book struct {
	t       *vk.T
	fd, fo  int
	nf      numberedfolders.NumberedFolders
	group   map[string]int64 // file path -> first number of its group
	path    map[int64]string
	folders map[string]int64
	n       int
}

func newBook(t *vk.T, fd, fo int) *book {
	return &book{t: t, fd: fd, fo: fo, nf: numberedfolders.NewNumberedFolders(fd, fo), group: map[string]int64{}, path: map[int64]string{}, folders: map[string]int64{}}
}

func (b *book) see(num int64) {
	folders, file, fn := b.nf.NumberToFoldersAndFile(num)
	first := num - num%pow10(b.fd)
	if fn != first {
		b.t.Fail("number %d: file number %d, want %d (the first number of its file)", num, fn, first)
	}
	if file == "" || strings.ContainsAny(file, "/\\") || filepath.IsAbs(folders) || strings.Contains("/"+folders+"/", "/../") || strings.Contains("/"+folders+"/", "/./") {
		b.t.Fail("number %d: unusable path %q %q", num, folders, file)
	}
	full := filepath.Join(folders, file)
	if g, ok := b.group[full]; ok && g != first {
		b.t.Fail("numbers %d.. and %d.. share the file %q", g, first, full)
	}
	b.group[full] = first
	if p, ok := b.path[first]; ok && p != full {
		b.t.Fail("number %d: path %q, but another number of the same file has %q", num, full, p)
	}
	b.path[first] = full
	for d := folders; d != "" && d != "."; d = filepath.Dir(d) {
		if _, ok := b.folders[d]; !ok {
			b.folders[d] = num
		}
	}
	b.n++
	b.t.Step(1)
}

func (b *book) finish() {
	for d, num := range b.folders {
		if g, ok := b.group[d]; ok {
			b.t.Fail("folder %q of number %d is also the file of numbers %d..", d, num, g)
		}
	}
	// deterministic: a second instance asked in another order gives the same answers
	nf := numberedfolders.NewNumberedFolders(b.fd, b.fo)
	for first, p := range b.path {
		folders, file, fn := nf.NumberToFoldersAndFile(first)
		if filepath.Join(folders, file) != p || fn != first {
			b.t.Fail("number %d: path %q from a fresh instance, %q before", first, filepath.Join(folders, file), p)
		}
	}
	b.t.StateHash(uint64(b.fd*100 + b.fo))
	for p := range b.group {
		b.t.State(b.fd, b.fo, p)
	}
	b.t.Outcome(fmt.Sprintf("files=%d folders=%d", len(b.group), len(b.folders)))
}

func main() {
	vk.Main(vk.Spec{
		Property: "C03",
		Rule:     "every number of the stated ranges for every digit choice; each path is entered in one book per digit choice and compared with all the others",
		Bounds: func(tier string) map[string]any {
			return map[string]any{"file digits": "0..5", "folder digits": "1..4", "numbers": "0..800000 (quick) or 0..4000000 (thorough), every product of boundary big digits up to 18 digits, neighbourhoods of powers of ten up to 2^63-1"}
		},
		Run: func(c *vk.Ctx) {
			for fo := 1; fo <= 4; fo++ {
				for fd := 0; fd <= 5; fd++ {
					fd, fo := fd, fo
					name := func(s string) func() string {
						return func() string { return fmt.Sprintf("%d digits per file, %d per folder: %s", fd, fo, s) }
					}
					c.Case("all-small-numbers", name("every number from 0"), func(t *vk.T) {
						b := newBook(t, fd, fo)
						n := vk.Pick(c, int64(800000), int64(4000000))
						for i := int64(0); i < n; i++ {
							b.see(i)
						}
						b.finish()
					})
					c.Case("all-small-numbers-descending", name("every number descending from 20000, mixed with 0"), func(t *vk.T) {
						b := newBook(t, fd, fo)
						for i := int64(20000); i >= 0; i-- {
							b.see(i)
							b.see(i / 7)
						}
						b.finish()
					})
					c.Case("around-powers", name("neighbourhoods of d*10^k up to 2^63-1, and of every power of two"), func(t *vk.T) {
						b := newBook(t, fd, fo)
						for k := 0; k <= 18; k++ {
							for _, d := range []int64{1, 2, 3, 5, 9, 10, 11, 12, 19, 90, 99, 100, 101, 109, 110, 111, 900, 999, 1000, 1001} {
								if math.Log10(float64(d))+float64(k) > 18.9 {
									continue
								}
								for e := int64(-3); e <= 3; e++ {
									if n := d*pow10(k) + e; n >= 0 {
										b.see(n)
									}
								}
							}
						}
						for k := 0; k < 63; k++ {
							for e := int64(-2); e <= 2; e++ {
								if n := int64(1)<<uint(k) + e; n >= 0 {
									b.see(n)
								}
							}
						}
						for e := int64(0); e < 5; e++ {
							b.see(math.MaxInt64 - e)
						}
						b.finish()
					})
					c.Case("big-digit-products", name("every combination of boundary big digits"), func(t *vk.T) {
						b := newBook(t, fd, fo)
						vals := func(d int) []int64 {
							m := pow10(d)
							set := map[int64]bool{}
							var out []int64
							for _, v := range []int64{0, 1, m / 10, m / 2, m - 2, m - 1} {
								if v >= 0 && v < m && !set[v] {
									set[v] = true
									out = append(out, v)
								}
							}
							return out
						}
						var rec func(depth int, digits int, num int64, mul int64)
						maxDepth := vk.Pick(c, 5, 7)
						rec = func(depth, digits int, num, mul int64) {
							b.see(num)
							if depth == maxDepth {
								return
							}
							w := fo
							if depth == 0 && fd > 0 {
								w = fd
							}
							if digits+w > 18 {
								return
							}
							for _, v := range vals(w) {
								rec(depth+1, digits+w, num+v*mul, mul*pow10(w))
							}
						}
						rec(0, 0, 0, 1)
						b.finish()
					})
					c.Case("on-disk", name("one file per group created on disk, then all read back"), func(t *vk.T) {
						dir := t.Dir()
						nf := numberedfolders.NewNumberedFolders(fd, fo)
						step := pow10(fd)
						var nums []int64
						for i := int64(0); i < 130; i++ {
							nums = append(nums, i*step, i*step*10+step/2, i*step*97, i*step*1009)
						}
						done := map[int64]bool{}
						for _, n := range nums {
							folders, file, _ := nf.NumberToFoldersAndFile(n)
							first := n - n%step
							d := filepath.Join(dir, folders)
							if err := os.MkdirAll(d, 0755); err != nil {
								t.Fail("number %d: %v", n, err)
							}
							p := filepath.Join(d, file)
							if old, err := os.ReadFile(p); err == nil {
								if string(old) != fmt.Sprint(first) {
									t.Fail("number %d: file %q already belongs to %s", n, p, old)
								}
							} else if done[first] {
								t.Fail("number %d: file of its group not found", n)
							}
							if err := os.WriteFile(p, []byte(fmt.Sprint(first)), 0644); err != nil {
								t.Fail("number %d: %v", n, err)
							}
							done[first] = true
							t.Step(1)
						}
						for _, n := range nums {
							folders, file, _ := nf.NumberToFoldersAndFile(n)
							got, err := os.ReadFile(filepath.Join(dir, folders, file))
							if err != nil || string(got) != fmt.Sprint(n-n%step) {
								t.Fail("number %d: read back %q, %v", n, got, err)
							}
						}
					})
				}
			}
		},
	})
}
