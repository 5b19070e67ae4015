package main

import (
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"net/rpc"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
)

func init() { commands["upload"] = uploadCmd }

// upFile is a file of the node that uploads
type upFile struct {
	Size, Csize int64 // Csize 0: shared
	Held        []int
	hash        common.Sha1Hash
	data        []byte
	path        string
	far         func(k int) []byte // of a file that is too large to be kept
}

// upStep is a step of a peer that asks for chunks
type upStep struct {
	Op   string // req, take, drain, ack, auto, pause, unshare, share
	F, K int
	Cap  int
	N    int
	Kind string
}

type upLane struct {
	IP    string
	Port  int
	Steps []upStep
	Wait  bool  // start when the others are done
	Gone  []int // files that have been removed before
}

type upNode struct {
	Seed  int64
	Files []upFile
	Lanes []upLane
}

type upJob struct {
	Bin     string
	Work    string
	Nodes   []upNode
	Workers int
	Linger  int // seconds to wait for uploads that nobody acknowledges
}

// uploader is a node that uploads
type uploader struct {
	*upNode
	dir  string
	addr *net.UDPAddr
	cat  *catalogue.Cat // of the node in this process, if it is
	m    *machine

	unended atomic.Bool // some transfer was not brought to its end
}

func (f *upFile) chunk(k int) (b []byte, ok bool) {
	cs := f.csize()
	if int64(k)*cs >= f.Size {
		return nil, false
	}
	end := (int64(k) + 1) * cs
	if end > f.Size {
		end = f.Size
	}
	if f.far != nil {
		return f.far(k)[:end-int64(k)*cs], true
	}
	return f.data[int64(k)*cs : end], true
}

func (f *upFile) csize() int64 {
	if f.Csize == 0 {
		return 1 << 22
	}
	return f.Csize
}

func (f *upFile) event(i int) M {
	held := []int{}
	cs := f.csize()
	if f.Csize == 0 {
		held = []int{0, int((f.Size+cs-1)/cs - 1)}
	} else {
		sort.Ints(f.Held)
		for _, c := range f.Held {
			if n := len(held); n > 0 && held[n-1] == c-1 {
				held[n-1] = c
			} else {
				held = append(held, c, c)
			}
		}
	}
	n := (f.Size + cs - 1) / cs
	return M{"op": "file", "f": i, "count": n, "csize": cs, "last": f.Size - (n-1)*cs, "held": held}
}

func (u *uploader) build(cat *catalogue.Cat) {
	if u.m != nil {
		must(os.MkdirAll(u.m.DlDir(), 0755))
	}
	seen := map[[20]byte]bool{}
	for i := range u.Files {
		f := &u.Files[i]
		for t := 0; ; t++ { // short files might be equal
			if f.Size > 1<<30 {
				var parts sync.Map
				f.hash.Data = sha1.Sum([]byte(fmt.Sprint("far", u.Seed, i)))
				f.far = func(k int) []byte {
					b, ok := parts.Load(k)
					if !ok {
						b, _ = parts.LoadOrStore(k, pattern(fmt.Sprint("far", u.Seed, i, k), int(f.Csize)))
					}
					return b.([]byte)
				}
				break
			}
			f.data = pattern(fmt.Sprint("up", u.Seed, i, t), int(f.Size))
			f.hash.Data = sha1.Sum(f.data)
			if !seen[f.hash.Data] {
				break
			}
		}
		seen[f.hash.Data] = true
		if f.Csize == 0 {
			f.path = filepath.Join(u.dir, "src", "f"+itoa(i))
			must(os.MkdirAll(filepath.Dir(f.path), 0755))
			must(os.WriteFile(f.path, f.data, 0644))
			_, err := cat.ShareFile(f.path)
			works(err)
			continue
		}
		n := (f.Size + f.Csize - 1) / f.Csize
		r, err := cat.RegisterDownload(uint64(f.Size), uint32(n), uint32(f.Csize), &f.hash, "f"+itoa(i))
		works(err)
		f.path = r.FilePath
		for _, c := range f.Held {
			b, _ := f.chunk(c)
			works(cat.SaveChunk(&f.hash, uint16(c), b))
		}
	}
}

// unshare removes a file from the node's catalogue, share adds it again
func (u *uploader) change(op string, f *upFile) error {
	if u.cat != nil {
		if op == "unshare" {
			return u.cat.UnshareFile(&f.hash)
		}
		_, err := u.cat.ShareFile(f.path)
		return err
	}
	c, err := rpc.Dial("unix", u.m.Sock())
	if err != nil {
		return err
	}
	defer c.Close()
	if op == "share" {
		var res cli.ListItem
		return c.Call("Methods.Share", &cli.ShareRequest{Filepath: f.path}, &res)
	}
	return fmt.Errorf("the daemon cannot do that")
}

// netLoss counts the datagrams that were dropped, here or on the way to the node
func (u *uploader) netLoss() (n int64) {
	b, err := os.ReadFile("/proc/thread-self/net/snmp")
	if err == nil {
		if u.m != nil {
			b = append(b, u.m.ask(agentReq{Op: "run", Argv: []string{"cat", "/proc/net/snmp"}, Timeout: 10}).Out...)
		}
		var keys []string
		for _, l := range strings.Split(string(b), "\n") {
			if !strings.HasPrefix(l, "Udp: ") {
				continue
			}
			fs := strings.Fields(l)
			if len(fs) > 1 && strings.Contains(fs[1], "Datagrams") {
				keys = fs
				continue
			}
			for i, k := range keys {
				if k == "InErrors" || k == "RcvbufErrors" || k == "SndbufErrors" {
					v, _ := strconv.ParseInt(fs[i], 10, 64)
					n += v
				}
			}
		}
	}
	b, err = os.ReadFile("/proc/thread-self/net/softnet_stat")
	if err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if fs := strings.Fields(l); len(fs) > 1 {
				v, _ := strconv.ParseInt(fs[1], 16, 64)
				n += v
			}
		}
	}
	return
}

// upPeer is a peer while it executes its steps
type upPeer struct {
	u       *uploader
	lane    *upLane
	conn    *net.UDPConn
	in      chan []byte
	trace   []M
	asked   []upStep // the requests so far
	offsets []uint32 // of packets received since the last acks
	cur     int      // index in asked of the transfer that packets belong to, or -1
	pos     int64    // what has been received of it
	n, acks int
	ended   bool
	jumbled bool // a packet arrived before an earlier one
	stalled bool
	gone    map[int]bool // files that were removed
}

func (p *upPeer) add(e M) { p.trace = append(p.trace, e) }

func (p *upPeer) holds(s upStep) bool {
	if s.F < 0 || p.gone[s.F] {
		return false
	}
	f := &p.u.Files[s.F]
	if f.Csize == 0 {
		_, ok := f.chunk(s.K)
		return ok
	}
	for _, c := range f.Held {
		if c == s.K {
			return true
		}
	}
	return false
}

func (p *upPeer) hashOf(f int) [20]byte {
	if f < 0 {
		return sha1.Sum([]byte(fmt.Sprint("unknown", f)))
	}
	return p.u.Files[f].hash.Data
}

// owed tells whether the node has to send something, now or soon
func (p *upPeer) owed() bool {
	return p.cur >= 0 && !p.ended && p.acks >= p.n && p.holds(p.asked[p.cur])
}

// packet notes a datagram that was received
func (p *upPeer) packet(b []byte) {
	e := M{"op": "packet", "off": -1, "len": 0, "head": 0, "size": -1, "of": []int{}, "announces": []int{}}
	if len(b) >= 5 && b[0] == 5 && len(b) <= 1029 {
		off := int64(binary.BigEndian.Uint32(b[1:5]))
		data := b[5:]
		if off == 0 && len(data) >= 24 {
			e["head"] = 1
			e["size"] = int64(binary.BigEndian.Uint32(data[20:24]))
			if e["size"].(int64) > 1<<31-1 {
				e["size"] = -1
			}
			ann := []int{}
			for i, q := range p.asked {
				if q.F >= 0 {
					if c, ok := p.u.Files[q.F].chunk(q.K); ok && sha1.Sum(c) == [20]byte(data[:20]) {
						ann = append(ann, i)
					}
				}
			}
			e["announces"] = ann
			data = data[24:]
		}
		if off < 1<<31 {
			e["off"] = off
		}
		e["len"] = len(data)
		of := []int{}
		for i, q := range p.asked {
			if q.F >= 0 {
				c, ok := p.u.Files[q.F].chunk(q.K)
				if ok && off+int64(len(data)) <= int64(len(c)) && string(c[off:off+int64(len(data))]) == string(data) {
					of = append(of, i)
				}
			}
		}
		e["of"] = of
		p.offsets = append(p.offsets, uint32(off))
		// what follows is only to know when to wait
		if e["head"] == 1 {
			for i := len(p.asked) - 1; i > p.cur; i-- {
				if p.holds(p.asked[i]) {
					p.cur, p.pos, p.n, p.acks, p.ended = i, 0, 0, 0, false
					break
				}
			}
		}
		p.n++
		if off > p.pos {
			p.jumbled = true
		}
		p.pos = off + int64(len(data))
		if len(data) == 0 {
			p.ended = true
		}
	}
	p.add(e)
}

// receive waits for up to n packets; for a long time if there is a reason to expect them
func (p *upPeer) receive(n int, quiet time.Duration) int {
	got := 0
	for got < n {
		d := quiet
		owed := p.owed() || p.pending() >= 0
		if owed {
			d = 5 * time.Second
		}
		select {
		case b := <-p.in:
			p.packet(b)
			got++
			continue
		case <-time.After(d):
		}
		if owed {
			p.add(M{"op": "stall"})
			p.stalled = true
		}
		break
	}
	return got
}

// pending is the last request, if it must be answered but was not yet
func (p *upPeer) pending() int {
	i := len(p.asked) - 1
	if i > p.cur && i >= 0 && p.holds(p.asked[i]) {
		return i
	}
	return -1
}

func (p *upPeer) ack(n int, kind string) {
	for i := 0; i < n; i++ {
		off := uint32(0)
		if k := len(p.offsets); k > 0 {
			at := 0
			if kind == "reversed" {
				at = k - 1
			}
			off = p.offsets[at]
			p.offsets = append(p.offsets[:at], p.offsets[at+1:]...)
		}
		if kind == "garbage" {
			off = rand.Uint32()
		}
		p.acks++
		p.add(M{"op": "ack"})
		p.conn.Write(ackMsg(off))
		if i%16 == 15 {
			time.Sleep(1 * time.Millisecond) // the node's buffer is not endless
		}
	}
}

func (p *upPeer) run() {
	p.cur = -1
	for _, s := range p.lane.Steps {
		if p.stalled {
			break
		}
		switch s.Op {
		case "req":
			p.asked = append(p.asked, s)
			p.add(M{"op": "req", "f": s.F, "k": s.K, "cap": s.Cap})
			p.offsets = nil
			p.conn.Write(openReq(p.hashOf(s.F), s.K, s.Cap))
			if p.holds(s) {
				for p.pending() >= 0 && !p.stalled { // until the first packet
					p.receive(1, 0)
				}
			} else {
				p.receive(1<<30, 60*time.Millisecond)
			}
		case "take":
			p.receive(s.N, 30*time.Millisecond)
		case "drain":
			p.receive(1<<30, 30*time.Millisecond)
		case "ack":
			p.ack(s.N, s.Kind)
		case "auto":
			p.auto(s.N, s.Kind)
		case "pause":
			p.add(M{"op": "pause", "ms": s.N})
			time.Sleep(time.Duration(s.N) * time.Millisecond)
		case "spin": // us
			for t := time.Now(); time.Since(t) < time.Duration(s.N)*time.Microsecond; {
			}
		case "unshare", "share":
			err := p.u.change(s.Op, &p.u.Files[s.F])
			p.gone[s.F] = s.Op == "unshare"
			p.add(M{"op": s.Op, "f": s.F, "ok": err == nil})
		}
	}
	if !p.stalled {
		p.auto(4, "")
	}
	if !p.stalled {
		// nothing follows, whatever is acknowledged
		p.ack(3, "garbage")
		p.receive(1<<30, 60*time.Millisecond)
	}
}

// auto acknowledges packets, n at a time, until there are no more of them
func (p *upPeer) auto(n int, kind string) {
	for !p.ended && !p.stalled && p.cur >= 0 {
		m := n
		if room := p.asked[p.cur].Cap - (p.n - p.acks); room > 0 && m > room {
			m = room // no more than that will come
		}
		k := p.receive(m, 15*time.Millisecond)
		if p.stalled || p.ended {
			break
		}
		if k == 0 && p.n <= p.acks {
			break // nothing to wait for, e.g. no longer shared
		}
		p.ack(p.n-p.acks, kind)
	}
}

func (u *uploader) runLane(l *upLane) (trace []M, again bool) {
	c, err := net.DialUDP("udp4", &net.UDPAddr{IP: net.ParseIP(l.IP), Port: l.Port}, u.addr)
	for try := 0; err != nil; try++ {
		if try > 50 {
			must(err)
		}
		time.Sleep(20 * time.Millisecond)
		c, err = net.DialUDP("udp4", &net.UDPAddr{IP: net.ParseIP(l.IP), Port: l.Port}, u.addr)
	}
	bigBuffer(c)
	p := &upPeer{u: u, lane: l, conn: c, in: make(chan []byte, 1<<16), gone: map[int]bool{}}
	go func() {
		for {
			b := make([]byte, 2000)
			n, err := c.Read(b)
			if err != nil {
				if strings.Contains(err.Error(), "closed") {
					return
				}
				continue
			}
			p.in <- b[:n]
		}
	}()
	for _, i := range l.Gone {
		p.gone[i] = true
	}
	for i := range u.Files {
		if !p.gone[i] {
			p.add(u.Files[i].event(i))
		}
	}
	p.run()
	if p.cur >= 0 && !p.ended {
		u.unended.Store(true)
	}
	c.Close()
	return p.trace, p.jumbled || p.stalled
}

// workers returns how many goroutines are busy in the flu package, and what they do
func workers(stacks string) (n int, what string) {
	for _, g := range strings.Split(stacks, "\n\n") {
		if strings.Contains(g, "flu-network/client/flu.") {
			n++
			what = g
		}
	}
	return
}

func ownStacks() string {
	b := make([]byte, 8<<20)
	return string(b[:runtime.Stack(b, true)])
}

func uploadCmd(args []string) {
	var j upJob
	readJSON(args[0], &j)
	var lock sync.Mutex
	var unended atomic.Bool
	traces := [][]M{}
	out := M{}
	parallel(len(j.Nodes), j.Workers, func(i int) {
		u := &uploader{upNode: &j.Nodes[i], dir: filepath.Join(j.Work, "u"+itoa(i))}
		var node *fnode
		if j.Bin == "" {
			node = startNode(u.dir, freePort())
			u.cat = node.cat
			u.addr = &net.UDPAddr{IP: net.ParseIP(nodeIP), Port: node.port}
			u.build(node.cat)
		} else {
			u.m = &machine{Dir: filepath.Join(j.Work, "node1"), K: 1}
			u.addr = &net.UDPAddr{IP: net.ParseIP(u.m.IP()), Port: fluPort}
			cat, err := catalogue.NewCat(u.m.CatDir(), u.m.DlDir())
			must(err)
			works(cat.Init())
			u.build(cat)
			u.m.startDaemon(j.Bin)
		}
		one := func(k int) {
			// a packet that was lost or late on the way is not the node's fault: such runs are repeated
			var tr []M
			tries := 0
			for odd := true; odd && tries < 3; tries++ {
				before := u.netLoss()
				tr, odd = u.runLane(&u.Lanes[k])
				if u.m != nil && !u.m.running() {
					break
				}
				for _, s := range u.Lanes[k].Steps {
					if s.Op == "unshare" {
						odd = false // cannot be repeated
					}
				}
				if odd && tries > 0 && u.netLoss() == before {
					tries++
				}
			}
			lock.Lock()
			traces = append(traces, tr)
			lock.Unlock()
		}
		now, later := []int{}, []int{}
		for k := range u.Lanes {
			if u.Lanes[k].Wait {
				later = append(later, k)
			} else {
				now = append(now, k)
			}
		}
		parallel(len(now), 32, func(k int) { one(now[k]) })
		parallel(len(later), 32, func(k int) { one(later[k]) })
		if node != nil {
			defer node.stop()
			if u.unended.Load() {
				unended.Store(true)
			}
		} else {
			lock.Lock()
			if !u.m.running() {
				log, _ := os.ReadFile(u.m.Log())
				out["crash"] = string(log)
			} else {
				n, what := 0, ""
				for t := 0; t < 5+j.Linger; t++ {
					r := u.m.ask(agentReq{Op: "get", Argv: []string{"http://localhost:6060/debug/pprof/goroutine?debug=2"}})
					if n, what = workers(r.Out); n == 0 {
						break
					}
					time.Sleep(time.Second)
				}
				if !u.unended.Load() {
					traces = append(traces, []M{{"op": "left", "n": n, "what": what}})
				}
				traces = append(traces, []M{{"op": "alive", "ok": rpcAlive(u.m.Sock(), len(u.Files))}})
				u.m.killDaemon()
			}
			lock.Unlock()
		}
	})
	if j.Bin == "" {
		n, what := 0, ""
		for t := 0; t < 50+10*j.Linger; t++ {
			if n, what = workers(ownStacks()); n == 0 {
				break
			}
			time.Sleep(100 * time.Millisecond)
		}
		if !unended.Load() {
			traces = append(traces, []M{{"op": "left", "n": n, "what": what}})
		}
	}
	out["traces"] = traces
	writeJSON(args[1], out)
}
