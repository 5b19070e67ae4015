package main

import (
	"crypto/sha1"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/rpc"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
	"github.com/flu-network/client/flu"
)

func init() {
	commands["daemon"] = daemonCmd
}

// entry is a file of a node's catalogue, as the specification sees it
type entry struct {
	Hash  [20]byte
	Name  string
	Size  uint64
	Csize uint32
	Count int
	Held  map[int]bool
	Path  string // shared from here, instead of being downloaded
}

func (e *entry) heldRanges() []int {
	cs := []int{}
	for c := range e.Held {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	r := []int{}
	for _, c := range cs {
		if len(r) > 0 && r[len(r)-1]+1 == c {
			r[len(r)-1] = c
		} else {
			r = append(r, c, c)
		}
	}
	return r
}

func (e *entry) event() M {
	return M{"op": "register", "hash": ints(e.Hash[:]), "name": ints([]byte(e.Name)), "size": be(e.Size, 8),
		"csize": be(uint64(e.Csize), 4), "count": e.Count, "held": e.heldRanges()}
}

func (e *entry) chunkLen(c int) int {
	if uint64(c+1)*uint64(e.Csize) > e.Size {
		return int(e.Size - uint64(c)*uint64(e.Csize))
	}
	return int(e.Csize)
}

// pattern returns n bytes that depend on key
func pattern(key string, n int) []byte {
	s := sha1.Sum([]byte(key))
	r := rand.New(rand.NewSource(int64(binary.BigEndian.Uint64(s[:8]))))
	b := make([]byte, n)
	r.Read(b)
	return b
}

func (e *entry) chunk(c int) []byte {
	return pattern(fmt.Sprintf("%x/%d", e.Hash, c), e.chunkLen(c))
}

// build makes e part of a catalogue
func (e *entry) build(cat *catalogue.Cat) {
	if e.Path != "" {
		_, err := cat.ShareFile(e.Path)
		works(err)
		return
	}
	h := &common.Sha1Hash{Data: e.Hash}
	_, err := cat.RegisterDownload(e.Size, uint32(e.Count), e.Csize, h, e.Name)
	works(err)
	for c := 0; c < e.Count; c++ {
		if e.Held[c] {
			works(cat.SaveChunk(h, uint16(c), e.chunk(c)))
		}
	}
}

func newEntry(rng *rand.Rand, name string, count int, csize uint32) *entry {
	e := &entry{Name: name, Csize: csize, Count: count, Held: map[int]bool{}}
	rng.Read(e.Hash[:])
	if count > 0 {
		e.Size = uint64(count)*uint64(csize) - uint64(rng.Intn(int(csize)))
	}
	return e
}

func sharedEntry(rng *rand.Rand, path string, size int) *entry {
	data := make([]byte, size)
	rng.Read(data)
	must(os.MkdirAll(filepath.Dir(path), 0755))
	must(os.WriteFile(path, data, 0644))
	e := &entry{Name: filepath.Base(path), Csize: 1 << 22, Size: uint64(size), Path: path, Held: map[int]bool{}}
	e.Hash = sha1.Sum(data)
	e.Count = (size + 1<<22 - 1) >> 22
	for c := 0; c < e.Count; c++ {
		e.Held[c] = true
	}
	return e
}

// ------------------------------------------------------------------ askers
type lane struct {
	ip     string
	grams  [][]byte
	events []M
}

type reply struct {
	via   string
	bytes []byte
	from  *net.UDPAddr
}

func recvInto(c *net.UDPConn, via string, out chan reply) {
	for {
		b := make([]byte, 1<<16)
		n, from, err := c.ReadFromUDP(b)
		if err != nil {
			return
		}
		out <- reply{via, b[:n], from}
	}
}

type world struct {
	entries map[[20]byte]*entry
	target  *net.UDPAddr
}

// expects tells whether the specification demands a reply to b. It only decides how long the harness waits.
// 0: no reply; otherwise the type of the reply.
func (w *world) expects(b []byte) byte {
	if len(b) == 0 {
		return 0
	}
	switch {
	case b[0] == 0 && len(b) >= 24 && len(b) >= 24+2*int(b[23]):
		return 1
	case b[0] == 2 && len(b) >= 23:
		return 3
	case b[0] == 4 && len(b) >= 25:
		var h [20]byte
		copy(h[:], b[1:21])
		e := w.entries[h]
		if e != nil && e.Held[int(binary.BigEndian.Uint16(b[21:23]))] {
			return 5
		}
	}
	return 0
}

func (w *world) runLane(l *lane) {
	src := listenOn(l.ip, 0)
	port := listenOn(l.ip, w.target.Port)
	defer src.Close()
	defer port.Close()
	in := make(chan reply, 10000)
	go recvInto(src, "src", in)
	go recvInto(port, "port", in)
	// waits until a message of type want has come, or until first has passed if that is 0
	collect := func(want byte, first, more time.Duration) []M {
		rs := []M{}
		t := time.NewTimer(first)
		defer t.Stop()
		for {
			select {
			case r := <-in:
				b := r.bytes
				if len(b) > 30 && b[0] == 5 {
					b = b[:30]
				}
				rs = append(rs, M{"via": r.via, "bytes": ints(b)})
				if want != 0 && (len(b) == 0 || b[0] != want) {
					continue
				}
				want = 0
				if !t.Stop() {
					select {
					case <-t.C:
					default:
					}
				}
				t.Reset(more)
			case <-t.C:
				return rs
			}
		}
	}
	for _, b := range l.grams {
		tries := 0
		rs := []M{}
		answered := true
		if want := w.expects(b); want != 0 {
			answered = false
			for !answered && tries < 3 {
				src.WriteToUDP(b, w.target)
				tries++
				rs = append(rs, collect(want, 3*time.Second, 300*time.Microsecond)...)
				for _, r := range rs {
					x := r["bytes"].([]int)
					answered = answered || (len(x) > 0 && byte(x[0]) == want)
				}
			}
			if tries > 1 {
				rs = append(rs, collect(0, 200*time.Millisecond, 200*time.Millisecond)...)
			}
		} else {
			src.WriteToUDP(b, w.target)
			tries = 1
			rs = collect(0, 2*time.Millisecond, 2*time.Millisecond)
		}
		l.events = append(l.events, M{"op": "serve", "b": ints(b), "tries": tries, "replies": rs})
		if !answered {
			return
		}
	}
	if rs := collect(0, 60*time.Millisecond, 60*time.Millisecond); len(rs) > 0 {
		l.events = append(l.events, M{"op": "serve", "b": []int{}, "tries": 1, "replies": rs})
	}
}

// ---------------------------------------------------------------- datagrams
func (w *world) hashes(rng *rand.Rand) [20]byte {
	var h [20]byte
	switch rng.Intn(10) {
	case 0:
		rng.Read(h[:])
	case 1:
		for i := range h {
			h[i] = 255
		}
	default:
		if len(w.entries) == 0 {
			rng.Read(h[:])
			break
		}
		ks := [][20]byte{}
		for k := range w.entries {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return string(ks[i][:]) < string(ks[j][:]) })
		h = ks[rng.Intn(len(ks))]
	}
	return h
}

func (w *world) someChunk(rng *rand.Rand, h [20]byte) int {
	n := 3
	if e := w.entries[h]; e != nil && e.Count > 0 {
		n = e.Count
		if rng.Intn(2) == 0 && len(e.Held) > 0 {
			r := e.heldRanges()
			k := rng.Intn(len(r) / 2)
			return r[2*k] + rng.Intn(r[2*k+1]-r[2*k]+1)
		}
	}
	return []int{rng.Intn(n), rng.Intn(n), 0, n - 1, n, 65535, rng.Intn(65536)}[rng.Intn(7)]
}

func (w *world) question(rng *rand.Rand, h [20]byte) []int {
	n := 4
	if e := w.entries[h]; e != nil {
		n = e.Count + 2
	}
	if n > 65536 {
		n = 65536
	}
	k := []int{0, 0, 1, 1, 2, 3, 5, 20, 126, 127}[rng.Intn(10)]
	if rng.Intn(6) == 0 { // malformed
		q := []int{}
		for i := rng.Intn(8); i > 0; i-- {
			q = append(q, []int{rng.Intn(n), rng.Intn(65536), 0, 65535}[rng.Intn(4)])
		}
		return q
	}
	// k sorted disjoint ranges
	pts := map[int]bool{}
	for i := 0; i < 2*k; i++ {
		if rng.Intn(12) == 0 {
			pts[rng.Intn(65536)] = true
		} else {
			pts[rng.Intn(n)] = true
		}
	}
	q := []int{}
	for p := range pts {
		q = append(q, p)
	}
	sort.Ints(q)
	out := []int{}
	for i := 0; i < len(q); {
		if i+1 >= len(q) || rng.Intn(4) == 0 {
			out = append(out, q[i], q[i])
			i++
		} else {
			out = append(out, q[i], q[i+1])
			i += 2
		}
	}
	if len(out) > 254 {
		out = out[:254]
	}
	return out
}

func discoverReq(id int, h [20]byte, q []int) []byte {
	m := wmsg{T: 0, ID: id, Hash: ints(h[:]), Chunks: q}
	return m.encode()
}
func listReq(id int, h [20]byte) []byte {
	m := wmsg{T: 2, ID: id, Hash: ints(h[:])}
	return m.encode()
}
func openReq(h [20]byte, chunk, cap int) []byte {
	m := wmsg{T: 4, Hash: ints(h[:]), Chunk: chunk, Cap: cap}
	return m.encode()
}
func ackMsg(off uint32) []byte {
	m := wmsg{T: 6, Off: be(uint64(off), 4)}
	return m.encode()
}

func pad(rng *rand.Rand, b []byte) []byte {
	if rng.Intn(4) > 0 {
		return b
	}
	x := make([]byte, rng.Intn(1024-len(b)+1))
	rng.Read(x)
	return append(b, x...)
}

// hostile makes a datagram of any kind
func (w *world) hostile(rng *rand.Rand) []byte {
	h := w.hashes(rng)
	id := rng.Intn(65536)
	var b []byte
	switch rng.Intn(9) {
	case 0, 1:
		b = pad(rng, discoverReq(id, h, w.question(rng, h)))
	case 2:
		b = pad(rng, listReq(id, h))
	case 3:
		b = pad(rng, openReq(h, w.someChunk(rng, h), []int{1, 2, 10, 1000, 65535}[rng.Intn(5)]))
	case 4:
		b = ackMsg(uint32(rng.Intn(1 << 30)))
	default:
		m := randomMsg(rng)
		b = m.encode()
		if rng.Intn(2) == 0 { // about something known
			for _, p := range []int{1, 3} {
				if len(b) >= p+20 && (b[0] == 4) == (p == 1) && b[0] != 1 && b[0] != 3 {
					copy(b[p:], h[:])
				}
			}
		}
	}
	switch rng.Intn(7) {
	case 0:
		b = b[:rng.Intn(len(b)+1)]
	case 1:
		if len(b) > 0 {
			b[rng.Intn(len(b))] = byte(rng.Intn(256))
		}
	case 2:
		if len(b) > 0 {
			b[0] = byte(rng.Intn(256))
		}
	case 3:
		for _, p := range []int{9, 23, 4, 45} {
			if p < len(b) && rng.Intn(2) == 0 {
				b[p] = byte([]int{0, 1, 127, 128, 254, 255, rng.Intn(256)}[rng.Intn(7)])
			}
		}
	}
	if rng.Intn(60) == 0 {
		b = make([]byte, []int{1024, 1025, 2000, 20000, 65507}[rng.Intn(5)])
		rng.Read(b)
		b[0] = byte(rng.Intn(8))
	}
	// only the first 1024 bytes of a datagram are looked at: whether more is an error or not is not specified
	if len(b) > 1024 && w.expects(b[:1024]) != w.expects(b) {
		b = b[:1024]
	}
	return b
}

// probe: what a node must answer whatever happened before
func (w *world) probe(rng *rand.Rand) [][]byte {
	blank := [20]byte{}
	for i := range blank {
		blank[i] = 255
	}
	r := [][]byte{discoverReq(rng.Intn(65536), blank, nil), listReq(rng.Intn(65536), blank)}
	for h, e := range w.entries {
		r = append(r, discoverReq(rng.Intn(65536), h, nil))
		if rs := e.heldRanges(); len(rs) > 0 {
			r = append(r, openReq(h, rs[0], 4))
		}
		if len(r) > 5 {
			break
		}
	}
	return r
}

// ------------------------------------------------------------------ command
type daemonJob struct {
	Mode    string // flood, ask, list
	Bin     string // the real daemon; "" for a node inside the driver
	Seed    int64
	Lanes   int
	Grams   int
	Scale   int
	Work    string
	Cluster string
	Gen     []struct {
		Held []int `json:"held"`
		Q    []int `json:"q"`
	}
}

func (w *world) add(es ...*entry) {
	for _, e := range es {
		w.entries[e.Hash] = e
	}
}

func someEntries(rng *rand.Rand, dir string) []*entry {
	es := []*entry{}
	for i := 0; i < 4; i++ {
		e := newEntry(rng, fmt.Sprintf("small%d.bin", i), 1+rng.Intn(12), uint32(1+rng.Intn(3000)))
		for c := 0; c < e.Count; c++ {
			if rng.Intn(3) > 0 {
				e.Held[c] = true
			}
		}
		es = append(es, e)
	}
	none := newEntry(rng, "none", 5, 10)
	long := newEntry(rng, strings.Repeat("n", 250+rng.Intn(60)), 3, 7)
	empty := newEntry(rng, "empty", 0, 7)
	wide := newEntry(rng, "wide", 600+rng.Intn(100), 1)
	for c := rng.Intn(2); c < wide.Count; c += 2 {
		wide.Held[c] = true
	}
	huge := newEntry(rng, "huge", 65536, 1)
	huge.Size = 65536
	for i := 0; i < 12; i++ {
		a := rng.Intn(65536)
		for c := a; c < a+10 && c < 65536; c++ {
			huge.Held[c] = true
		}
	}
	huge.Held[65535] = true
	huge.Held[0] = true
	es = append(es, none, long, empty, wide, huge,
		sharedEntry(rng, filepath.Join(dir, "s", "one byte"), 1),
		sharedEntry(rng, filepath.Join(dir, "s", "two chunks"), 1<<22+1+rng.Intn(1000)),
		sharedEntry(rng, filepath.Join(dir, "s", "exactly one chunk"), 1<<22))
	return es
}

func daemonCmd(args []string) {
	var j daemonJob
	readJSON(args[0], &j)
	rng := rand.New(rand.NewSource(j.Seed))
	w := &world{entries: map[[20]byte]*entry{}}
	var m *machine
	var node *fnode
	dir := filepath.Join(j.Work, "cat"+itoa(rng.Intn(1e9)))
	var cat *catalogue.Cat
	if j.Bin != "" {
		m = &machine{Dir: filepath.Join(j.Work, "node1"), K: 1}
		var err error
		cat, err = catalogue.NewCat(m.CatDir(), m.DlDir())
		must(err)
		works(cat.Init())
		w.target = &net.UDPAddr{IP: net.ParseIP(m.IP()), Port: fluPort}
	} else {
		node = startNode(dir, fluPort)
		cat = node.cat
		w.target = &net.UDPAddr{IP: net.ParseIP(nodeIP), Port: fluPort}
	}
	must(os.MkdirAll(dir, 0755))
	out := M{}
	prefix := []M{}
	put := func(es ...*entry) {
		w.add(es...)
		for _, e := range es {
			e.build(cat)
			prefix = append(prefix, e.event())
		}
	}
	lanes := []*lane{}
	for k := 0; k < j.Lanes; k++ {
		lanes = append(lanes, &lane{ip: fmt.Sprintf("10.77.0.%d", 2+k)})
	}
	switch j.Mode {
	case "flood":
		put(someEntries(rng, dir)...)
		for _, l := range lanes {
			for k := 0; k < j.Grams; k++ {
				l.grams = append(l.grams, w.hostile(rng))
			}
			l.grams = append(l.grams, w.probe(rng)...)
		}
	case "ask":
		sets := map[string]*entry{}
		k := 0
		for _, g := range j.Gen {
			key, _ := json.Marshal(g.Held)
			if sets[string(key)] == nil {
				e := newEntry(rng, fmt.Sprintf("gen%d", len(sets)), j.Scale, 3)
				for i := 0; i+1 < len(g.Held); i += 2 {
					for c := g.Held[i]; c <= g.Held[i+1]; c++ {
						e.Held[c] = true
					}
				}
				sets[string(key)] = e
				put(e)
			}
			l := lanes[k%len(lanes)]
			k++
			l.grams = append(l.grams, discoverReq(rng.Intn(65536), sets[string(key)].Hash, g.Q))
		}
		put(someEntries(rng, dir)...)
		for _, l := range lanes {
			for k := 0; k < j.Grams; k++ {
				h := w.hashes(rng)
				l.grams = append(l.grams, pad(rng, discoverReq(rng.Intn(65536), h, w.question(rng, h))))
			}
		}
	case "list":
		n := j.Scale
		room := 65507 - 5
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("f%d-", i)
			want := (room - 41*(n-i)) / (n - i)
			if j.Scale < 50 {
				want = 1 + rng.Intn(250)
			}
			if want > 255 {
				want = 255
			}
			if want > len(name) {
				name += strings.Repeat("x", want-len(name))
			}
			room -= 41 + len(name)
			e := newEntry(rng, name, rng.Intn(6), uint32(1+rng.Intn(50)))
			for c := 0; c < e.Count && i%5 == 0; c++ {
				if rng.Intn(2) == 0 {
					e.Held[c] = true
				}
			}
			if len(name) > 200 {
				e.Held = map[int]bool{}
			}
			put(e)
		}
		if n < 50 && n > 0 {
			put(someEntries(rng, dir)...)
		}
		for _, l := range lanes {
			for k := 0; k < j.Grams; k++ {
				l.grams = append(l.grams, listReq(rng.Intn(65536), w.hashes(rng)))
			}
		}
	}
	if m != nil {
		m.startDaemon(j.Bin)
	}
	later := make([][][]byte, len(lanes))
	if m != nil && j.Mode == "ask" {
		for i, l := range lanes {
			n := len(l.grams) - j.Grams/2
			l.grams, later[i] = l.grams[:n], l.grams[n:]
		}
	}
	calls := make([][]M, len(lanes))
	parallel(len(lanes), len(lanes), func(i int) {
		w.runLane(lanes[i])
	})
	if m != nil && j.Mode == "ask" && m.running() { // the node gets another address while it runs
		to := net.IPv4(10, 77, 0, byte(100+rng.Intn(100)))
		m.ip("addr", "add", to.String()+"/24", "broadcast", "10.77.0.255", "dev", "eth0")
		m.ip("addr", "del", m.IP()+"/24", "dev", "eth0")
		m.ip("addr", "replace", to.String()+"/24", "broadcast", "10.77.0.255", "dev", "eth0")
		m.ip("route", "replace", "255.255.255.255", "dev", "eth0")
		w.target.IP = to
		time.Sleep(50 * time.Millisecond)
		parallel(len(lanes), len(lanes), func(i int) {
			l := lanes[i]
			l.grams = later[i]
			l.events = append(l.events, M{"op": "move", "addr": ints(to.To4())})
			w.runLane(l)
		})
	}
	if j.Mode == "list" {
		parallel(len(lanes), len(lanes), func(i int) {
			calls[i] = w.listCalls(rand.New(rand.NewSource(j.Seed+int64(i))), i, filepath.Join(j.Work, "asker"+itoa(i)))
		})
	}
	last := []M{}
	if m != nil {
		last = append(last, M{"op": "alive", "ok": m.running() && rpcAlive(m.Sock(), len(prefix))})
		if !m.running() {
			log, _ := os.ReadFile(m.Log())
			out["crash"] = string(log)
		}
	}
	traces := [][]M{}
	for i, l := range lanes {
		tr := append(append([]M{}, prefix...), l.events...)
		tr = append(tr, calls[i]...)
		traces = append(traces, append(tr, last...))
	}
	out["traces"] = traces
	writeJSON(args[1], out)
	if m != nil && m.running() {
		m.killDaemon()
	}
}

// rpcAlive asks the daemon's command line interface for its listing
func rpcAlive(sock string, n int) bool {
	c, err := rpc.Dial("unix", sock)
	if err != nil {
		return false
	}
	defer c.Close()
	var res cli.ListResponse
	call := c.Go("Methods.List", &cli.ListRequest{Sha1Hash: (&common.Sha1Hash{}).Blank()}, &res, make(chan *rpc.Call, 1))
	select {
	case d := <-call.Done:
		return d.Error == nil && (n < 0 || len(res.Items) == n)
	case <-time.After(10 * time.Second):
		return false
	}
}

// listCalls asks the node, and hosts that misbehave, with the code under test
func (w *world) listCalls(rng *rand.Rand, k int, dir string) []M {
	cat := newCat(dir)
	srv := flu.NewServer(w.target.Port, cat)
	blank := [20]byte{}
	for i := range blank {
		blank[i] = 255
	}
	out := []M{}
	var ip [4]byte
	copy(ip[:], w.target.IP.To4())
	ask := func(ip [4]byte, port int, h [20]byte) M {
		t := time.Now()
		res, err := srv.ListFilesOnHost(ip, uint16(port), &common.Sha1Hash{Data: h})
		e := M{"hash": ints(h[:]), "err": err != nil, "ms": int(time.Since(t) / time.Millisecond)}
		if err == nil {
			e["res"] = specOf(res, nil)
		}
		return e
	}
	for n := 0; n < 6; n++ {
		h := blank
		if n > 0 {
			h = w.hashes(rng)
		}
		var e M
		for try := 0; try < 3; try++ { // datagrams may get lost
			e = ask(ip, w.target.Port, h)
			if e["err"] == false {
				break
			}
		}
		e["op"] = "listcall"
		out = append(out, e)
	}
	// hosts that do not answer, or not properly
	type bad struct {
		reply []byte
		close bool
	}
	bads := []bad{{nil, false}, {nil, true}, {[]byte{}, false}, {[]byte{3}, false}, {[]byte{3, 0, 0}, false}, {[]byte{6, 0, 0, 0, 0}, false}}
	for n := 0; n < 10; n++ {
		m := randomMsg(rng)
		for n%2 == 0 && m.T != 3 {
			m = randomMsg(rng)
		}
		b := m.encode()
		b = b[:rng.Intn(len(b)+1)]
		if len(b) > 5 && n%3 == 0 {
			b[rng.Intn(5)] = byte(rng.Intn(256))
		}
		bads = append(bads, bad{b, false})
	}
	res := make([]M, len(bads))
	parallel(len(bads), len(bads), func(n int) {
		host := fmt.Sprintf("10.77.0.%d", 2+k)
		c := listenOn(host, 0)
		a := c.LocalAddr().(*net.UDPAddr)
		if bads[n].close {
			c.Close()
		} else {
			defer c.Close()
			go func() {
				b := make([]byte, 2048)
				_, from, err := c.ReadFromUDP(b)
				if err == nil && bads[n].reply != nil {
					c.WriteToUDP(bads[n].reply, from)
				}
			}()
		}
		var ip [4]byte
		copy(ip[:], a.IP.To4())
		e := ask(ip, a.Port, w.hashes(rand.New(rand.NewSource(int64(n)))))
		e["op"] = "listbad"
		e["b"] = []int{}
		if bads[n].reply != nil && !bads[n].close {
			e["b"] = ints(bads[n].reply)
		}
		res[n] = e
	})
	return append(out, res...)
}
