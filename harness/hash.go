package main

import (
	"encoding/hex"
	"math/rand"
	"strconv"

	"github.com/flu-network/client/common"
)

func init() { commands["hash"] = hashCmd }

type hashCase struct {
	Kind string `json:"kind"`
	V    []int  `json:"v"`
}

// hashCmd CASES OUT SEED NRANDOM
func hashCmd(args []string) {
	var cases []hashCase
	readJSON(args[0], &cases)
	seed, err := strconv.ParseInt(args[2], 10, 64)
	must(err)
	n, err := strconv.Atoi(args[3])
	must(err)
	rng := rand.New(rand.NewSource(seed))
	for k := 0; k < n; k++ {
		b := make([]byte, 20)
		rng.Read(b)
		c := hashCase{Kind: []string{"hash", "text", "bytes"}[k%3]}
		switch c.Kind {
		case "hash":
			if rng.Intn(3) == 0 {
				for i := range b {
					b[i] = 255
				}
				b[rng.Intn(20)] -= byte(rng.Intn(2))
			}
		case "text":
			b = []byte(hex.EncodeToString(b))
			switch rng.Intn(4) {
			case 0:
				b[rng.Intn(40)] = byte(rng.Intn(256))
			case 1:
				b = b[:rng.Intn(41)]
			case 2:
				b = append(b, b[:rng.Intn(41)]...)
			}
		case "bytes":
			b = append(b, b...)[:rng.Intn(41)]
		}
		c.V = ints(b)
		cases = append(cases, c)
	}
	out := [][]M{}
	for _, c := range cases {
		e := M{"op": c.Kind, "v": c.V}
		in := bytesOf(c.V)
		flag := func(b bool) int {
			if b {
				return 1
			}
			return 0
		}
		p := guarded(func() {
			var h, g common.Sha1Hash
			if c.Kind != "hash" {
				rng.Read(h.Data[:])
				e["before"] = ints(h.Data[:])
				var err error
				if c.Kind == "text" {
					err = h.FromStringSafe(string(in))
				} else {
					err = h.FromSliceSafe(in)
				}
				for i := range in { // the hash does not depend on it any more
					in[i]++
				}
				e["ok"], e["after"] = flag(err == nil), ints(h.Data[:])
				return
			}
			r := h.FromSlice(in)
			for i := range in {
				in[i]++
			}
			text := h.String()
			e["text"] = ints([]byte(text))
			e["back"] = ints(g.FromString(text).Data[:])
			e["again"] = ints(r.Data[:])
			e["null"] = flag(h.IsBlank())
			e["bytes"] = ints(h.Slice())
			cp := h.SliceCopy()
			e["blank"] = ints(h.Blank().Data[:])
			e["copy"] = ints(cp)
		})
		if p != "" {
			e["panic"] = p
		}
		out = append(out, []M{e})
	}
	writeJSON(args[1], out)
}
