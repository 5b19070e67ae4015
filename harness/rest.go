package main

import (
	"crypto/sha1"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand"
	"net"
	"net/rpc"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
)

func init() { commands["rest"] = restCmd }

// restWork is something that is asked of a daemon, and how that goes
type restWork struct {
	Kind, Way string
	At        int // ms after the start of its round
	Size      int
}

type restNode struct {
	Seed  int64
	Works []restWork
	Times int // how often each is done in a round
}

type restJob struct {
	Bin   string
	Work  string
	Nodes []restNode
	Wait  int // seconds that the daemon is given to let go of everything
}

// restFile is a file that one piece of work is about
type restFile struct {
	w     *restWork
	n     *resting
	data  []byte
	hash  common.Sha1Hash
	path  string // on the node, if it is shared there
	lock  sync.Mutex
	opens int
	open  bool
	peer  *net.UDPConn
}

type resting struct {
	*restNode
	bin   string
	m     *machine
	rec   *recorder
	rng   *rand.Rand
	rlock sync.Mutex
	lock  sync.Mutex
	files map[[20]byte]*restFile
	works int
	turn  int
	addr  *net.UDPAddr
}

func (n *resting) rand(k int) int {
	n.rlock.Lock()
	defer n.rlock.Unlock()
	return n.rng.Intn(k)
}

// held is what the daemon has: goroutines, open files, sockets, and megabytes
func (n *resting) held(all bool) M {
	pid := n.m.ask(agentReq{Op: "status", Name: "daemon"}).Pid
	files, socks := 0, 0
	fds, _ := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
	for _, e := range fds {
		to, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%s", pid, e.Name()))
		switch {
		case err != nil:
		case strings.HasPrefix(to, "socket:"):
			socks++
		case strings.HasPrefix(to, "/"):
			files++
		}
	}
	// without the means to look inside, the rest is not looked at
	gs, mem := 0, 0
	what := ""
	for _, g := range strings.Split(n.m.ask(agentReq{Op: "get", Argv: []string{"http://localhost:6060/debug/pprof/goroutine?debug=2"}}).Out, "\n\n") {
		if strings.HasPrefix(g, "goroutine ") && !strings.Contains(g, "net/http.") && !strings.Contains(g, "runtime/pprof.") {
			gs++
			if x := strings.Index(g, "created by "); x >= 0 {
				y := g[x+len("created by "):]
				if z := strings.IndexAny(y, " \n"); z >= 0 {
					y = y[:z]
				}
				what += y + " "
			}
		}
	}
	// (the memory is measured last, because that also makes the node collect its garbage: what is to be closed
	// must not have to wait for that)
	if !all {
		return M{"routines": gs, "files": files, "sockets": socks}
	}
	heap := n.m.ask(agentReq{Op: "get", Argv: []string{"http://localhost:6060/debug/pprof/heap?gc=1&debug=1"}}).Out
	if x := strings.Index(heap, "# HeapAlloc = "); x >= 0 {
		y := heap[x+len("# HeapAlloc = "):]
		if z := strings.IndexByte(y, '\n'); z >= 0 {
			v, _ := strconv.Atoi(y[:z])
			mem = v >> 20
		}
	}
	return M{"routines": gs, "files": files, "sockets": socks, "memory": mem, "what": what}
}

// settle waits until it has no more than given, or does not let go
func (n *resting) settle(than M, slack, wait int) (h M) {
	for t := 0; t <= wait; t++ {
		h = n.held(t == wait)
		ok := true
		for _, k := range []string{"routines", "files", "sockets"} {
			ok = ok && h[k].(int) <= than[k].(int)+slack
		}
		if ok {
			h["memory"] = n.held(true)["memory"]
			if h["memory"].(int) <= than["memory"].(int)+4 {
				return
			}
		}
		time.Sleep(time.Second)
	}
	return
}

func (n *resting) newFile(w *restWork) *restFile {
	n.lock.Lock()
	defer n.lock.Unlock()
	n.works++
	f := &restFile{w: w, n: n, data: pattern(fmt.Sprint("rest", n.Seed, n.works), w.Size)}
	f.hash.Data = sha1.Sum(f.data)
	f.path = filepath.Join(n.m.Home(), "src", "w"+itoa(n.works))
	n.files[f.hash.Data] = f
	return f
}

func (n *resting) cli(timeout float64, args ...string) agentRes {
	return n.m.cli(n.bin, timeout, args...)
}

// forget removes a file and its entry
func (n *resting) forget(f *restFile) {
	os.RemoveAll(f.path)
	if e := n.entry(f); e != nil {
		os.RemoveAll(e.FilePath)
	}
	n.cli(30, "clean")
}

func (n *resting) entry(f *restFile) *cli.ListItem {
	c, err := rpc.Dial("unix", n.m.Sock())
	if err != nil {
		return nil
	}
	defer c.Close()
	var res cli.ListResponse
	call := c.Go("Methods.List", &cli.ListRequest{Sha1Hash: &f.hash}, &res, make(chan *rpc.Call, 1))
	select {
	case d := <-call.Done:
		if d.Error == nil {
			for i := range res.Items {
				if res.Items[i].Sha1Hash == f.hash.Data {
					return &res.Items[i]
				}
			}
		}
	case <-time.After(10 * time.Second):
	}
	return nil
}

// complete waits until the node has all of the file
func (n *resting) complete(f *restFile, seconds int) bool {
	for t := 0; t < seconds*4; t++ {
		e := n.entry(f)
		if e != nil && e.ChunksDownloaded == e.ChunkCount {
			return true
		}
		if e == nil { // a clean has removed it before there was a file
			n.cli(30, "get", hex.EncodeToString(f.hash.Data[:]))
		}
		time.Sleep(250 * time.Millisecond)
	}
	return false
}

// peerSocket is of others in every round
func (n *resting) peerSocket() *net.UDPConn {
	return listenOn("10.77.0."+itoa(2+8*n.turn+n.rand(8)), 0)
}

// upload asks the node for a chunk
func (n *resting) upload(w *restWork) {
	f := n.newFile(w)
	must(os.MkdirAll(filepath.Dir(f.path), 0755))
	must(os.WriteFile(f.path, f.data, 0644))
	if w.Way != "unknown" {
		n.cli(30, "share", f.path)
	}
	if w.Way == "nofile" {
		os.Remove(f.path)
	}
	c := n.peerSocket()
	defer c.Close()
	chunk, window := 0, 1+n.rand(64)
	switch w.Way {
	case "nochunk":
		chunk = 1 + n.rand(9)
	case "zero":
		window = 0
	}
	ask := func() { c.WriteToUDP(openReq(f.hash.Data, chunk, window), n.addr) }
	// take receives packets until the end or some of them
	take := func(most int, ack bool) (ended bool) {
		b := make([]byte, 2000)
		for seen := 0; seen < most; seen++ {
			c.SetReadDeadline(time.Now().Add(1500 * time.Millisecond))
			k, _, err := c.ReadFromUDP(b)
			if err != nil || k < 5 {
				return false
			}
			if ack {
				c.WriteToUDP(ackMsg(binary.BigEndian.Uint32(b[1:5])), n.addr)
			}
			if k == 5 {
				return true
			}
		}
		return false
	}
	all := w.Size/1000 + 10
	some := 1 + n.rand(w.Size/2048)
	ask()
	switch w.Way {
	case "done":
		take(all, true)
	case "silent":
		take(window, false)
	case "half":
		take(some, true)
	case "again":
		take(some, true)
		ask()
		take(all+window, true)
	case "instead": // many requests, of which the last counts
		for k := 0; k < 10; k++ {
			ask()
		}
		take(2*all, true)
	case "unknown", "nochunk", "nofile", "zero":
		take(1, true)
	case "cutfile":
		take(1, true)
		os.Truncate(f.path, int64(w.Size/2))
		take(all, true)
	case "lost":
		take(1, true)
		n.forget(f)
		take(all, true)
	case "late":
		take(all, true)
		for k := 0; k < 20; k++ {
			c.WriteToUDP(ackMsg(uint32(n.rand(w.Size))), n.addr)
		}
	case "greedy": // more acknowledgements than packets
		for k := 0; k < 200; k++ {
			c.WriteToUDP(ackMsg(uint32(n.rand(w.Size))), n.addr)
		}
		take(all, true)
	default:
		die("upload %s", w.Way)
	}
}

// download makes the node get a file from a peer
func (n *resting) download(w *restWork) {
	f := n.newFile(w)
	f.peer = n.peerSocket()
	defer f.peer.Close()
	go f.serve()
	h := hex.EncodeToString(f.hash.Data[:])
	f.lock.Lock()
	f.open = true
	f.lock.Unlock()
	n.cli(30, "get", h)
	switch w.Way {
	case "nobody", "nometa", "badmeta":
	case "lie":
		for t := 0; t < 60 && n.entry(f) != nil; t++ {
			time.Sleep(250 * time.Millisecond)
		}
	case "again":
		n.cli(30, "get", h)
		n.complete(f, 40)
		n.cli(30, "get", h)
	case "removed", "full":
		for t := 0; t < 120; t++ {
			f.lock.Lock()
			k := f.opens
			f.lock.Unlock()
			if k > 0 && f.w.Way == "removed" || k > 2 {
				break
			}
			time.Sleep(100 * time.Millisecond)
		}
		n.forget(f)
	default:
		n.complete(f, 60)
	}
}

// offer answers a discovery that asks for the file
func (f *restFile) offer(id int) {
	f.lock.Lock()
	ok := f.open
	f.lock.Unlock()
	if !ok || f.w.Way == "nobody" || f.w.Kind != "download" {
		return
	}
	a := f.peer.LocalAddr().(*net.UDPAddr)
	m := wmsg{T: 1, ID: id, Addr: ints(a.IP.To4()), Port: a.Port, Chunks: []int{0, 0}}
	f.peer.WriteToUDP(m.encode(), f.n.addr)
	if f.w.Way == "again" { // answers are repeated, and late
		f.peer.WriteToUDP(m.encode(), f.n.addr)
		time.Sleep(2100 * time.Millisecond)
		f.peer.WriteToUDP(m.encode(), f.n.addr)
	}
}

// serve is the peer that has the file
func (f *restFile) serve() {
	acks := map[string]chan uint32{}
	for {
		b := make([]byte, 2000)
		k, from, err := f.peer.ReadFromUDP(b)
		if err != nil {
			if strings.Contains(err.Error(), "closed") {
				return
			}
			continue
		}
		switch {
		case b[0] == 2 && k >= 23:
			m := wmsg{T: 3, ID: int(binary.BigEndian.Uint16(b[1:3])), Files: []wfile{{Hash: ints(f.hash.Data[:]), Name: ints([]byte(filepath.Base(f.path))),
				Size: be(uint64(len(f.data)), 8), Csize: be(4<<20, 4), Count: be(1, 4), Have: be(1, 4)}}}
			switch f.w.Way {
			case "nometa":
				continue
			case "badmeta":
				m.Files[0].Count = be(9, 4)
			}
			f.peer.WriteToUDP(m.encode(), from)
		case b[0] == 4 && k >= 25:
			f.lock.Lock()
			first := f.opens == 0
			f.opens++
			f.lock.Unlock()
			if e := f.n.entry(f); e != nil && first && f.w.Way == "full" {
				os.Symlink("/dev/full", e.FilePath)
			}
			ch := make(chan uint32, 1<<14)
			acks[from.String()] = ch
			go f.transfer(from, first, ch)
		case b[0] == 6:
			select {
			case acks[from.String()] <- 1:
			default:
			}
		}
	}
}

func (f *restFile) transfer(to *net.UDPAddr, first bool, acks chan uint32) {
	ps := packets(f.data)
	put := func(b []byte) { f.peer.WriteToUDP(b, to) }
	if first || f.w.Way == "removed" {
		switch f.w.Way {
		case "silent", "removed":
			return
		case "short":
			put(ps[0][:9])
			return
		case "large":
			b := append([]byte{}, ps[0]...)
			binary.BigEndian.PutUint32(b[25:29], 1<<31)
			put(b)
			return
		case "corrupt":
			put(ps[0])
			put(ps[len(ps)-1])
			return
		case "burst": // more at once than is read before the node gives up
			for k := 0; k < 60; k++ {
				put(ps[0][:9])
			}
			return
		case "flood": // goes on long after the node has given up
			put(ps[0][:9])
			for k := 0; k < 400; k++ {
				put(ps[k%len(ps)])
				time.Sleep(100 * time.Microsecond)
			}
			return
		}
	}
	if f.w.Way == "lie" {
		ps = packets(pattern("lie", len(f.data)))
	}
	out := 0
	for _, p := range ps {
		for out >= 48 {
			select {
			case <-acks:
				out--
			case <-time.After(4 * time.Second):
				return
			}
		}
		put(p)
		out++
	}
}

// command gives commands
func (n *resting) command(w *restWork) {
	f := n.newFile(w)
	must(os.MkdirAll(filepath.Dir(f.path), 0755))
	quiet := "10.77.0." + itoa(2+n.rand(15)) // nobody there serves
	raw := func(after func(c *net.UnixConn)) {
		c, err := net.DialUnix("unix", nil, &net.UnixAddr{Name: n.m.Sock(), Net: "unix"})
		if err != nil {
			return
		}
		after(c)
		c.Close()
	}
	switch w.Way {
	case "list", "clean", "chims", "nonsense":
		n.cli(30, w.Way)
	case "share":
		must(os.WriteFile(f.path, f.data, 0644))
		n.cli(30, "share", f.path)
		n.cli(30, "share", f.path)
		os.Rename(f.path, f.path+"x")
		n.cli(30, "share", f.path+"x")
		os.Remove(f.path + "x")
		n.cli(30, "clean")
	case "missing":
		n.cli(30, "share", f.path)
	case "folder":
		n.cli(30, "share", n.m.Home())
	case "empty":
		must(os.WriteFile(f.path, nil, 0644))
		n.cli(30, "share", f.path)
		os.Remove(f.path)
	case "get":
		n.cli(30, "get", "xyz")
		n.cli(30, "get", hex.EncodeToString(f.hash.Data[:]))
	case "host":
		n.cli(30, "list", quiet)
	case "killed": // the client is, while it waits
		n.cli(0.3, "chims")
		n.cli(0.3, "get", hex.EncodeToString(f.hash.Data[:]))
		n.cli(0.3, "list", quiet)
	case "junk":
		raw(func(c *net.UnixConn) { c.Write(f.data[:1+n.rand(2000)]); time.Sleep(50 * time.Millisecond) })
	case "silent":
		raw(func(c *net.UnixConn) { time.Sleep(200 * time.Millisecond) })
	case "half": // of a call, or one without waiting for the answer
		for k := 0; k < 2; k++ {
			raw(func(c *net.UnixConn) {
				rc := rpc.NewClient(c)
				var res cli.ListResponse
				rc.Go("Methods.List", &cli.ListRequest{Sha1Hash: (&common.Sha1Hash{}).Blank()}, &res, make(chan *rpc.Call, 1))
				if k == 0 {
					rc.Go("Methods.Nonsense", &cli.ListRequest{Sha1Hash: (&common.Sha1Hash{}).Blank()}, &res, make(chan *rpc.Call, 1))
				}
			})
		}
	default:
		die("command %s", w.Way)
	}
}

// datagram sends messages
func (n *resting) datagram(w *restWork) {
	f := n.newFile(w)
	c := n.peerSocket()
	defer c.Close()
	put := func(b []byte) { c.WriteToUDP(b, n.addr); time.Sleep(time.Millisecond) }
	for k := 0; k < 30; k++ {
		id := n.rand(1 << 16)
		switch w.Way {
		case "junk":
			put(pattern(fmt.Sprint(w.Way, k), n.rand(1400)))
		case "discover":
			m := wmsg{T: 0, ID: id, Hash: ints(f.hash.Data[:]), Chunks: []int{}}
			put(m.encode())
		case "list":
			put(listReq(id, f.hash.Data))
		case "acks":
			put(ackMsg(uint32(id)))
		case "answers":
			m := wmsg{T: 1, ID: k, Addr: []int{10, 77, 0, 9}, Port: 9, Chunks: []int{0, 0}}
			put(m.encode())
			m = wmsg{T: 3, ID: k, Files: []wfile{}}
			put(m.encode())
		default:
			die("datagram %s", w.Way)
		}
	}
}

func (n *resting) round(r int) {
	var wg sync.WaitGroup
	k := 0
	n.turn = r
	for t := 0; t < n.Times; t++ {
		for i := range n.Works {
			w := &n.Works[i]
			id := fmt.Sprint(r, "-", k)
			k++
			delay := time.Duration(w.At+n.rand(300)) * time.Millisecond
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(delay)
				n.rec.add(M{"op": "begin", "w": id, "kind": w.Kind, "way": w.Way})
				switch w.Kind {
				case "upload":
					n.upload(w)
				case "download":
					n.download(w)
				case "command":
					n.command(w)
				case "datagram":
					n.datagram(w)
				default:
					die("kind %s", w.Kind)
				}
				n.rec.add(M{"op": "end", "w": id})
			}()
		}
	}
	wg.Wait()
	n.lock.Lock()
	for _, f := range n.files {
		os.RemoveAll(f.path)
		if e := n.entry(f); e != nil {
			os.RemoveAll(e.FilePath)
		}
	}
	n.files = map[[20]byte]*restFile{}
	n.lock.Unlock()
	n.cli(30, "clean")
	e := -1
	if ok := rpcAlive(n.m.Sock(), 0); ok {
		e = 0
	}
	n.rec.add(M{"op": "clean", "entries": e})
}

func restCmd(args []string) {
	var j restJob
	readJSON(args[0], &j)
	var lock sync.Mutex
	traces := make([][]M, len(j.Nodes))
	ns := make([]*resting, len(j.Nodes))
	out := M{}
	bc := listenOn("255.255.255.255", fluPort)
	go func() {
		for {
			b := make([]byte, 2048)
			k, from, err := bc.ReadFromUDP(b)
			if err != nil {
				return
			}
			if k < 24 || b[0] != 0 {
				continue
			}
			for _, n := range ns {
				if n != nil && from.IP.Equal(n.addr.IP) {
					n.lock.Lock()
					f := n.files[[20]byte(b[3:23])]
					n.lock.Unlock()
					if f != nil {
						go f.offer(int(binary.BigEndian.Uint16(b[1:3])))
					}
				}
			}
		}
	}()
	for i := range j.Nodes {
		n := &resting{restNode: &j.Nodes[i], bin: j.Bin, rec: newRecorder(), files: map[[20]byte]*restFile{}}
		n.rng = rand.New(rand.NewSource(n.Seed))
		n.m = &machine{Dir: filepath.Join(j.Work, "node"+itoa(i+1)), K: i + 1, Hoard: true}
		n.addr = &net.UDPAddr{IP: net.ParseIP(n.m.IP()), Port: fluPort}
		must(os.MkdirAll(n.m.DlDir(), 0755))
		cat, err := catalogue.NewCat(n.m.CatDir(), n.m.DlDir())
		must(err)
		works(cat.Init())
		ns[i] = n
	}
	parallel(len(j.Nodes), len(j.Nodes), func(i int) {
		n := ns[i]
		defer func() { traces[i] = n.rec.trace() }()
		n.m.startDaemon(j.Bin)
		n.cli(30, "list")
		cold := n.held(true)
		n.round(0)
		n.settle(cold, 0, j.Wait)
		n.held(true)
		time.Sleep(time.Second) // what was garbage is gone now
		base := n.held(true)
		n.rec.add(M{"op": "base", "has": base})
		n.round(1)
		last := n.settle(base, 2, 2*j.Wait)
		n.rec.add(M{"op": "rest", "has": last})
		lock.Lock()
		defer lock.Unlock()
		if !n.m.running() {
			log, _ := os.ReadFile(n.m.Log())
			out["crash"] = string(log)
		} else {
			n.m.signalDaemon(syscall.SIGKILL)
		}
	})
	out["traces"] = traces
	writeJSON(args[1], out)
}
