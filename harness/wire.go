package main

import (
	"math/rand"
	"strconv"

	"github.com/flu-network/client/common"
	"github.com/flu-network/client/flu/messages"
)

func init() { commands["wire"] = wireCmd }

// wmsg is a message as the specification sees it
type wmsg struct {
	T      int     `json:"t"`
	ID     int     `json:"id"`
	Hash   []int   `json:"hash"`
	Addr   []int   `json:"addr"`
	Port   int     `json:"port"`
	Chunks []int   `json:"chunks"`
	Files  []wfile `json:"files"`
	Chunk  int     `json:"chunk"`
	Cap    int     `json:"cap"`
	Off    []int   `json:"off"`
	Data   []int   `json:"data"`
}

type wfile struct {
	Size  []int `json:"size"`
	Count []int `json:"count"`
	Csize []int `json:"csize"`
	Have  []int `json:"have"`
	Hash  []int `json:"hash"`
	Name  []int `json:"name"`
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func bytesOf(x []int) []byte {
	r := make([]byte, len(x))
	for i, v := range x {
		r[i] = byte(v)
	}
	return r
}

// be returns the n bytes of v, most significant first
func be(v uint64, n int) []int {
	r := make([]int, n)
	for i := n - 1; i >= 0; i-- {
		r[i] = int(v & 255)
		v >>= 8
	}
	return r
}

func unbe(b []int) uint64 {
	v := uint64(0)
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

func hashOf(b []int) *common.Sha1Hash {
	h := common.Sha1Hash{}
	for i := range h.Data {
		h.Data[i] = byte(b[i])
	}
	return &h
}

func u16s(x []int) []uint16 {
	r := make([]uint16, len(x))
	for i, v := range x {
		r[i] = uint16(v)
	}
	return r
}

func intsOf16(x []uint16) []int {
	r := make([]int, len(x))
	for i, v := range x {
		r[i] = int(v)
	}
	return r
}

// real builds the message of the code under test
func (w *wmsg) real() messages.Message {
	switch w.T {
	case 0:
		return &messages.DiscoverHostRequest{RequestID: uint16(w.ID), Sha1Hash: *hashOf(w.Hash), Chunks: u16s(w.Chunks)}
	case 1:
		return &messages.DiscoverHostResponse{RequestID: uint16(w.ID), Port: uint16(w.Port), Chunks: u16s(w.Chunks),
			Address: [4]byte{byte(w.Addr[0]), byte(w.Addr[1]), byte(w.Addr[2]), byte(w.Addr[3])}}
	case 2:
		return &messages.ListFilesRequest{RequestID: uint16(w.ID), Sha1Hash: hashOf(w.Hash)}
	case 3:
		r := &messages.ListFilesResponse{RequestID: uint16(w.ID), Files: []messages.ListFilesEntry{}}
		for _, f := range w.Files {
			r.Files = append(r.Files, messages.ListFilesEntry{SizeInBytes: unbe(f.Size), ChunkCount: uint32(unbe(f.Count)),
				ChunkSizeInBytes: uint32(unbe(f.Csize)), ChunksDownloaded: uint32(unbe(f.Have)), Sha1Hash: hashOf(f.Hash),
				FileName: string(bytesOf(f.Name))})
		}
		return r
	case 4:
		return &messages.OpenConnectionRequest{Sha1Hash: hashOf(w.Hash), Chunk: uint16(w.Chunk), WindowCap: uint16(w.Cap)}
	case 5:
		return &messages.DataPacket{Offset: uint32(unbe(w.Off)), Data: bytesOf(w.Data)}
	case 6:
		return &messages.DataPacketAck{Offset: uint32(unbe(w.Off))}
	}
	die("no message type %d", w.T)
	return nil
}

// spec returns the message with only the fields of its type
func (w *wmsg) spec() M {
	switch w.T {
	case 0:
		return M{"t": 0, "id": w.ID, "hash": w.Hash, "chunks": w.Chunks}
	case 1:
		return M{"t": 1, "id": w.ID, "addr": w.Addr, "port": w.Port, "chunks": w.Chunks}
	case 2:
		return M{"t": 2, "id": w.ID, "hash": w.Hash}
	case 3:
		if w.Files == nil {
			w.Files = []wfile{}
		}
		return M{"t": 3, "id": w.ID, "files": w.Files}
	case 4:
		return M{"t": 4, "hash": w.Hash, "chunk": w.Chunk, "cap": w.Cap}
	case 5:
		return M{"t": 5, "off": w.Off, "data": w.Data}
	case 6:
		return M{"t": 6, "off": w.Off}
	}
	return M{"t": -1}
}

// specOf converts what the code under test parsed
func specOf(m messages.Message, err error) M {
	if err != nil {
		return M{"t": -1}
	}
	switch x := m.(type) {
	case *messages.DiscoverHostRequest:
		return M{"t": 0, "id": int(x.RequestID), "hash": ints(x.Sha1Hash.Data[:]), "chunks": intsOf16(x.Chunks)}
	case *messages.DiscoverHostResponse:
		return M{"t": 1, "id": int(x.RequestID), "addr": ints(x.Address[:]), "port": int(x.Port), "chunks": intsOf16(x.Chunks)}
	case *messages.ListFilesRequest:
		return M{"t": 2, "id": int(x.RequestID), "hash": ints(x.Sha1Hash.Data[:])}
	case *messages.ListFilesResponse:
		files := []M{}
		for _, f := range x.Files {
			files = append(files, M{"size": be(f.SizeInBytes, 8), "count": be(uint64(f.ChunkCount), 4),
				"csize": be(uint64(f.ChunkSizeInBytes), 4), "have": be(uint64(f.ChunksDownloaded), 4),
				"hash": ints(f.Sha1Hash.Data[:]), "name": ints([]byte(f.FileName))})
		}
		return M{"t": 3, "id": int(x.RequestID), "files": files}
	case *messages.OpenConnectionRequest:
		return M{"t": 4, "hash": ints(x.Sha1Hash.Data[:]), "chunk": int(x.Chunk), "cap": int(x.WindowCap)}
	case *messages.DataPacketAck:
		return M{"t": 6, "off": be(uint64(x.Offset), 4)}
	}
	return M{"t": -2}
}

func dataSpec(d *messages.DataPacket) M {
	return M{"t": 5, "off": be(uint64(d.Offset), 4), "data": ints(d.Data)}
}

// wireCmd MESSAGES OUT SEED NRANDOM MODE(rt|parse)
func wireCmd(args []string) {
	var msgs []wmsg
	readJSON(args[0], &msgs)
	seed, err := strconv.ParseInt(args[2], 10, 64)
	must(err)
	n, err := strconv.Atoi(args[3])
	must(err)
	rng := rand.New(rand.NewSource(seed))
	for k := 0; k < n; k++ {
		msgs = append(msgs, randomMsg(rng))
	}
	out := [][]M{}
	for k := range msgs {
		if args[4] == "rt" {
			out = append(out, wireRoundTrip(&msgs[k], rng))
		} else {
			out = append(out, wireMutants(&msgs[k], rng)...)
		}
	}
	writeJSON(args[1], out)
}

func wireRoundTrip(w *wmsg, rng *rand.Rand) []M {
	var b []byte
	e := M{"op": "ser", "m": w.spec()}
	if p := guarded(func() { b = w.real().Serialize() }); p != "" {
		e["panic"] = p
		return []M{e}
	}
	e["bytes"] = ints(b)
	if w.T == 5 {
		f := M{"op": "data", "bytes": ints(b)}
		if p := guarded(func() { f["res"] = dataSpec(messages.ParseAsDataPacket(b)) }); p != "" {
			f["panic"] = p
		}
		tr := []M{e, f}
		if len(w.Data) >= 24 {
			g := M{"op": "first", "bytes": ints(b)}
			p := guarded(func() {
				h, size, data := messages.ParseAsDataPacket(b).Split()
				g["res"] = M{"hash": ints(h.Data[:]), "size": be(uint64(size), 4), "data": ints(data)}
			})
			if p != "" {
				g["panic"] = p
			}
			tr = append(tr, g)
		}
		return tr
	}
	e["op"] = "rt"
	pad := make([]byte, []int{0, 1, 9, 500}[rng.Intn(4)])
	rng.Read(pad)
	in := append(append([]byte{}, b...), pad...)
	if p := guarded(func() { e["res"] = specOf(messages.Parse(in)) }); p != "" {
		e["panic"] = p
	}
	f := M{"op": "parse", "bytes": ints(in), "res": e["res"]}
	if e["panic"] != nil {
		return []M{e}
	}
	if len(in) > 4000 {
		return []M{e}
	}
	return []M{e, f}
}

func parseEvent(b []byte) []M {
	e := M{"op": "parse", "bytes": ints(b)}
	in := make([]byte, len(b)) // capacity exactly its length
	copy(in, b)
	if p := guarded(func() { e["res"] = specOf(messages.Parse(in)) }); p != "" {
		e["panic"] = p
	}
	return []M{e}
}

// encode is the harness's own encoder, for messages to be damaged
func (w *wmsg) encode() []byte {
	u16 := func(v int) []byte { return []byte{byte(v >> 8), byte(v)} }
	b := []byte{byte(w.T)}
	list := func() {
		c := w.Chunks
		if len(c) > 255 {
			c = c[:254]
		}
		b = append(b, byte(len(c)))
		for _, v := range c {
			b = append(b, u16(v)...)
		}
	}
	switch w.T {
	case 0:
		b = append(append(b, u16(w.ID)...), bytesOf(w.Hash)...)
		list()
	case 1:
		b = append(append(append(b, u16(w.ID)...), bytesOf(w.Addr)...), u16(w.Port)...)
		list()
	case 2:
		b = append(append(b, u16(w.ID)...), bytesOf(w.Hash)...)
	case 3:
		b = append(append(b, u16(w.ID)...), u16(len(w.Files))...)
		for _, f := range w.Files {
			name := bytesOf(f.Name)
			if len(name) > 255 {
				name = name[:255]
			}
			for _, part := range [][]int{f.Size, f.Count, f.Csize, f.Have, f.Hash} {
				b = append(b, bytesOf(part)...)
			}
			b = append(append(b, byte(len(name))), name...)
		}
	case 4:
		b = append(append(append(b, bytesOf(w.Hash)...), u16(w.Chunk)...), u16(w.Cap)...)
	case 5:
		b = append(append(b, bytesOf(w.Off)...), bytesOf(w.Data)...)
	case 6:
		b = append(b, bytesOf(w.Off)...)
	}
	return b
}

func wireMutants(w *wmsg, rng *rand.Rand) [][]M {
	b := w.encode()
	out := [][]M{}
	if len(b) > 3000 {
		b = b[:3000]
	}
	cuts := []int{len(b), len(b) - 1, 0, 1, 2, 3}
	for k := 0; k < 4; k++ {
		cuts = append(cuts, rng.Intn(len(b)+1))
	}
	seen := map[int]bool{}
	for _, c := range cuts {
		if c >= 0 && c <= len(b) && !seen[c] {
			seen[c] = true
			out = append(out, parseEvent(b[:c]))
		}
	}
	for k := 0; k < 5; k++ {
		x := append([]byte{}, b...)
		switch rng.Intn(5) {
		case 0: // another type
			x[0] = byte(rng.Intn(9))
		case 1: // another count
			for _, p := range [][]int{{23}, {9}, {3, 4, 45}}[rng.Intn(3)] {
				if p < len(x) {
					x[p] = byte(rng.Intn(256))
				}
			}
		case 2: // damaged bytes
			for j := 0; j < 4; j++ {
				x[rng.Intn(len(x))] = byte(rng.Intn(256))
			}
		case 3: // damaged and cut
			x[rng.Intn(len(x))] ^= 0xff
			x = x[:rng.Intn(len(x)+1)]
		case 4: // noise
			x = make([]byte, rng.Intn(80))
			rng.Read(x)
			if len(x) > 0 {
				x[0] = byte(rng.Intn(8))
			}
		}
		out = append(out, parseEvent(x))
	}
	return out
}

func randomMsg(rng *rand.Rand) wmsg {
	rb := func(n int) []int {
		r := make([]int, n)
		for i := range r {
			r[i] = rng.Intn(256)
		}
		return r
	}
	u16 := func() int {
		if rng.Intn(3) == 0 {
			return []int{0, 1, 255, 256, 32767, 32768, 65535}[rng.Intn(7)]
		}
		return rng.Intn(65536)
	}
	w := wmsg{T: rng.Intn(7), ID: u16(), Hash: rb(20), Addr: rb(4), Port: u16(), Chunk: u16(), Cap: u16(), Off: rb(4)}
	w.Data = rb([]int{0, 1, 23, 24, 25, 500, 1000, 1024}[rng.Intn(8)])
	n := []int{0, 2, 2, 4, 6, rng.Intn(20), rng.Intn(256), 200 + rng.Intn(120), 254, 255, 256}[rng.Intn(11)]
	w.Chunks = []int{}
	for i := 0; i < n; i++ {
		w.Chunks = append(w.Chunks, u16())
	}
	w.Files = []wfile{}
	if w.T == 3 {
		k := []int{0, 1, 2, 3, rng.Intn(20)}[rng.Intn(5)]
		if rng.Intn(25) == 0 {
			k = 255 + rng.Intn(5)
		}
		for i := 0; i < k; i++ {
			w.Files = append(w.Files, wfile{rb(8), rb(4), rb(4), rb(4), rb(20), rb([]int{0, 1, rng.Intn(40), rng.Intn(256), 255, 256, 300}[rng.Intn(7)])})
		}
	}
	return w
}
