package main

import (
	"math"
	"math/rand"
	"strconv"

	"github.com/flu-network/client/common/bitset"
)

func init() { commands["bitset"] = bitsetCmd }

type bitOp struct {
	Op string `json:"op"`
	R  int    `json:"r"`
	X  int    `json:"x"`
	D  int    `json:"d"`
	B  int    `json:"b"`
	Q  []int  `json:"q"`
}

// bitsetCmd SCRIPTS OUT SEED NRANDOM: executes the given operation sequences, and random ones.
func bitsetCmd(args []string) {
	var scripts [][]bitOp
	readJSON(args[0], &scripts)
	seed, err := strconv.ParseInt(args[2], 10, 64)
	must(err)
	n, err := strconv.Atoi(args[3])
	must(err)
	rng := rand.New(rand.NewSource(seed))
	for k := 0; k < n; k++ {
		scripts = append(scripts, randomBitScript(rng, k))
	}
	traces := make([][]M, 0, len(scripts))
	for _, s := range scripts {
		traces = append(traces, runBitScript(s, rng))
	}
	writeJSON(args[1], traces)
}

var edges = []int{0, 1, 7, 8, 31, 32, 62, 63, 64, 65, 126, 127, 128, 129, 190, 191, 192, 193, 255, 256, 257, 319, 320, 321}

func randomBitScript(rng *rand.Rand, k int) []bitOp {
	hi := []int{8, 70, 140, 260, 330}[rng.Intn(5)]
	big := k%40 == 39
	if big {
		hi = 65536
	}
	idx := func() int {
		if rng.Intn(3) == 0 {
			for {
				e := edges[rng.Intn(len(edges))]
				if e < hi {
					return e
				}
			}
		}
		return rng.Intn(hi)
	}
	reg := func() int { return 1 + rng.Intn(3) }
	n := 30
	if big {
		n = 5
	}
	var s []bitOp
	for i := 0; i < n; i++ {
		r, d := reg(), reg()
		switch rng.Intn(18) {
		case 0:
			size := idx()
			if rng.Intn(2) == 0 {
				size = edges[rng.Intn(len(edges))]
			}
			if big {
				size = 65536 - rng.Intn(3)
			}
			s = append(s, bitOp{Op: "new", R: r, X: size})
		case 1, 2, 3:
			s = append(s, bitOp{Op: "set", R: r, X: idx()})
		case 4, 5:
			s = append(s, bitOp{Op: "unset", R: r, X: idx()})
		case 6:
			s = append(s, bitOp{Op: "fill", R: r})
		case 7:
			s = append(s, bitOp{Op: "copy", R: r, D: d})
		case 8:
			s = append(s, bitOp{Op: "union", R: r, B: reg(), D: d})
		case 9:
			s = append(s, bitOp{Op: "inter", R: r, B: reg(), D: d})
		case 10:
			s = append(s, bitOp{Op: "restore", R: r, D: d})
		case 11, 12, 13:
			var q []int
			if rng.Intn(4) > 0 { // well-formed
				at := 0
				for j := rng.Intn(4) + 1; j > 0 && at < hi+70; j-- {
					a := at + rng.Intn(hi/3+2)
					b := a + rng.Intn(hi/3+2)
					if rng.Intn(4) == 0 {
						a = at
					}
					if a > 65535 || b > 65535 {
						break
					}
					if b < a {
						b = a
					}
					q = append(q, a, b)
					at = b + 1
				}
			} else {
				for j := rng.Intn(5); j >= 0; j-- {
					q = append(q, rng.Intn(hi+10)&0xffff)
				}
			}
			s = append(s, bitOp{Op: "overlap", R: r, Q: q})
		case 14:
			k := rng.Intn(8)
			if rng.Intn(3) == 0 {
				k = rng.Intn(hi + 5)
			}
			s = append(s, bitOp{Op: "first", R: r, X: k})
		case 15:
			s = append(s, bitOp{Op: "getfar", R: r, X: rng.Intn(6)})
		case 16:
			s = append(s, bitOp{Op: "unsetfar", R: r, X: rng.Intn(6)})
		case 17:
			s = append(s, bitOp{Op: []string{"badform", "badform", "oddform"}[rng.Intn(3)], R: r, X: rng.Int() & 0xffffff})
		}
	}
	return s
}

// indices beyond every bitset used here
var farIndices = []uint64{1 << 20, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 5, math.MaxUint64}

func observe(r int, b *bitset.Bitset) M {
	size := b.Size()
	mem := []uint64{}
	top := size + 130
	if top < 400 {
		top = 400
	}
	for i := 0; i < top; i++ {
		if b.Get(uint64(i)) {
			mem = append(mem, uint64(i))
		}
	}
	gaps := []uint16{}
	for _, g := range b.UnfilledRanges() {
		gaps = append(gaps, g.Start, g.End)
	}
	return M{"r": r, "size": size, "count": b.Count(), "full": b.Full(), "mem": mem, "runs": nn(b.Ranges()), "gaps": gaps}
}

func nn(x []uint16) []uint16 {
	if x == nil {
		return []uint16{}
	}
	return x
}

func runBitScript(script []bitOp, rng *rand.Rand) []M {
	regs := map[int]*bitset.Bitset{1: bitset.NewBitset(0), 2: bitset.NewBitset(0), 3: bitset.NewBitset(0)}
	trace := []M{}
	for _, op := range script {
		e := M{"op": op.Op, "r": op.R}
		p := guarded(func() {
			b := regs[op.R]
			switch op.Op {
			case "new":
				e["x"] = op.X
				regs[op.R] = bitset.NewBitset(op.X)
			case "set":
				e["x"] = op.X
				b.Set(uint64(op.X))
			case "unset":
				e["x"] = op.X
				b.Unset(uint64(op.X))
			case "fill":
				b.Fill()
			case "copy":
				e["d"] = op.D
				regs[op.D] = b.Copy()
			case "union":
				e["b"], e["d"] = op.B, op.D
				regs[op.D] = b.Union(regs[op.B])
			case "inter":
				e["b"], e["d"] = op.B, op.D
				regs[op.D] = b.Intersect(regs[op.B])
			case "restore":
				e["d"] = op.D
				n, err := bitset.Deserialize(b.Serialize())
				e["ok"] = err == nil
				if err == nil {
					regs[op.D] = n
				}
			case "getfar":
				e["res"] = b.Get(farIndices[op.X%len(farIndices)])
			case "unsetfar":
				b.Unset(farIndices[op.X%len(farIndices)])
			case "overlap":
				q := make([]uint16, len(op.Q))
				for i, v := range op.Q {
					q[i] = uint16(v)
				}
				e["q"] = q
				e["res"] = nn(b.Overlap(q))
			case "first":
				e["x"] = op.X
				e["res"] = nn(b.UnfilledItems(op.X))
			case "badform":
				// a proper prefix of the stored form, or the stored form with something after it
				data := b.Serialize()
				if op.X%3 == 0 {
					ext := []int{1, 7, 8, 9, 16, 64}[(op.X/3)%6]
					data = append(data, make([]byte, ext)...)
				} else {
					data = data[:(op.X/3)%len(data)]
				}
				e["len"] = len(data)
				_, err := bitset.Deserialize(data)
				e["ok"] = err == nil
			case "oddform":
				// arbitrary damage: whatever is accepted must be usable
				data := b.Serialize()
				for k := 0; k <= op.X%3; k++ {
					data[rng.Intn(len(data))] ^= byte(1 << uint(rng.Intn(8)))
				}
				if n, err := bitset.Deserialize(data); err == nil {
					n.Full()
					n.Count()
					n.Get(uint64(n.Size()))
					n.Copy().Set(3).Unset(1)
					n.Union(b)
					n.Intersect(b)
					if n.Size() >= 0 && n.Size() < 1<<20 {
						n.Ranges()
						n.UnfilledRanges()
						n.UnfilledItems(5)
						n.Overlap([]uint16{0, 100})
						n.Copy().Fill()
					}
					n.Serialize()
				}
			default:
				die("unknown bitset operation %s", op.Op)
			}
		})
		if p == "" {
			p = guarded(func() {
				obs := []M{}
				for r := 1; r <= 3; r++ {
					obs = append(obs, observe(r, regs[r]))
				}
				e["obs"] = obs
			})
		}
		if p != "" {
			e["panic"] = p
			trace = append(trace, e)
			break
		}
		trace = append(trace, e)
	}
	return trace
}
