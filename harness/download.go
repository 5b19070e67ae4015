package main

import (
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"net/rpc"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
)

func init() { commands["download"] = downloadCmd }

// dlFile is a file that a node may download from scripted peers
type dlFile struct {
	Size, Csize int64
	Known       bool // the node has an entry for it from the start
	Has         []int
	Shared      bool // .. all of it, from elsewhere
	InDl        bool // .. or from its downloads directory
	Impostor    bool // what the peers have is not what the hash says
	Name        []byte
	Expect      string // finish, settle, rest, dropped, brief
	Meta        *dlMeta

	data []byte
	lie  []byte
	hash common.Sha1Hash
	path string
}

// dlMeta is what peers say about a file, if it is not the truth
type dlMeta struct {
	Size    uint64
	Csize   uint32
	Count   uint32
	Name    []byte
	Entries int    // in the reply
	Reply   string // "", none, cut, otherhash, type, empty
}

// dlPeer is a scripted peer
type dlPeer struct {
	IP       int // 10.77.0.IP, or one of otherNets
	Honest   bool
	Have     [][]int // per file: the chunks it has
	From     int     // it answers discoveries From, From+1, .. Until-1 of a file (counted from 1; 0: for ever)
	Until    int
	All      bool     // it answers with all it has, not only what was asked for
	Plans    []string // how its transfers go, one after the other
	After    string   // .. and then
	Loss     float64  // of its packets
	Deaf     float64  // discoveries it does not answer
	Answers  []string // special answers to discoveries, one after the other
	MetaLie  bool     // it replies with Meta
	NoRepeat bool
}

type dlStep struct {
	Op string // get, remove, restart
	F  int
	On string // start, ms, disc, open, packet, end
	N  int    // the N-th of these
	G  int    // of this file

	Delay int  // ms after that
	Ask   bool // remove: ask for chunks of it afterwards
	Retry int  // get: how often to try again if it fails
}

type dlScene struct {
	Seed  int64
	Files []dlFile
	Peers []dlPeer
	User  []dlStep
	Max   int // seconds
	Quiet int // seconds without a discovery after which nothing is going to happen
}

type dlJob struct {
	Bin     string
	Memory  int64 // that the real daemon may use; 0: any
	Work    string
	Workers int
	Scenes  []dlScene
}

// otherNets are addresses some parts of which are those of the node, or of other peers
var otherNets = []string{"10.77.1.1", "10.78.0.1", "11.77.0.1", "10.77.1.2", "10.78.0.2", "11.77.0.3"}

func (p *dlPeer) address() string {
	if p.IP >= 256 {
		return otherNets[(p.IP-256)%len(otherNets)]
	}
	return fmt.Sprintf("10.77.0.%d", p.IP)
}

// downloader is a node that downloads, and what is around it
type downloader struct {
	*dlScene
	rec   *recorder
	dir   string // everything it may touch is below
	home  string
	node  *fnode
	m     *machine
	bin   string
	ip    string
	port  int
	peers []*dlPeerState
	rng   *rand.Rand
	rlock sync.Mutex

	lock    sync.Mutex
	ids     map[[20]byte]int
	seen    []map[int]int // what was observed last
	count   map[string]int
	lastAt  time.Time
	reboot  sync.Mutex // held while the daemon is being restarted
	down    bool       // .. and it does not run
	pending int        // user's requests that did not return yet
	calls   int        // .. and did not fail
	gotAt   map[int]time.Time
	removed map[int]time.Time
	wg      sync.WaitGroup
	over    bool
}

type dlPeerState struct {
	*dlPeer
	d         *downloader
	name      string
	addr      *net.UDPAddr
	conn      *net.UDPConn
	lock      sync.Mutex
	transfers int
	answers   int
	acks      map[string]chan uint32
}

func (d *downloader) rand(n int) int {
	d.rlock.Lock()
	defer d.rlock.Unlock()
	return d.rng.Intn(n)
}

func (d *downloader) chance(p float64) bool {
	d.rlock.Lock()
	defer d.rlock.Unlock()
	return p > 0 && d.rng.Float64() < p
}

func (f *dlFile) count() int { return int((f.Size + f.Csize - 1) / f.Csize) }
func (f *dlFile) chunk(b []byte, k int) []byte {
	lo := int64(k) * f.Csize
	hi := lo + f.Csize
	if hi > f.Size {
		hi = f.Size
	}
	if lo >= f.Size {
		return nil
	}
	return b[lo:hi]
}

func (d *downloader) id(h [20]byte) int {
	d.lock.Lock()
	defer d.lock.Unlock()
	if x, ok := d.ids[h]; ok {
		return x
	}
	x := len(d.ids) + 1
	d.ids[h] = x
	return x
}

func (d *downloader) cat() (*catalogue.Cat, error) {
	if d.node != nil {
		return d.node.cat, nil
	}
	c, err := catalogue.NewCat(d.m.CatDir(), d.m.DlDir())
	if err != nil {
		return nil, err
	}
	return c, c.Init()
}

// view is what the node's catalogue says about a file
func (d *downloader) view(f int) (listed bool, held []int, path string) {
	cat, err := d.cat()
	if err != nil {
		return false, nil, "catalogue cannot be opened: " + err.Error()
	}
	r, err := cat.Contains(&d.Files[f].hash)
	if err != nil {
		return false, nil, ""
	}
	rs := r.Progress.Ranges()
	for i := 0; i+1 < len(rs); i += 2 {
		for c := int(rs[i]); c <= int(rs[i+1]); c++ {
			held = append(held, c)
		}
	}
	return true, held, r.FilePath
}

// shape is what the catalogue says about the dimensions of a file
func (d *downloader) shape(f int) (shape []interface{}, path string) {
	cat, err := d.cat()
	if err == nil {
		if r, err := cat.Contains(&d.Files[f].hash); err == nil {
			return []interface{}{big(r.SizeInBytes), big(int64(r.ChunkSize)), r.Progress.Size()}, r.FilePath
		}
	}
	return []interface{}{}, ""
}

// observe records what changed about a file. The recorder is locked, or nothing else happens.
func (d *downloader) observe(f int, thorough bool) M {
	listed, held, path := d.view(f)
	fl := &d.Files[f]
	now := map[int]int{}
	added, changed, gone := [][]int{}, [][]int{}, []int{}
	for _, k := range held {
		old, known := d.seen[f][k]
		if known && !thorough && fl.Size > 1<<18 {
			now[k] = old
			continue
		}
		n := int64(0)
		if c := fl.chunk(fl.data, k); c != nil {
			n = int64(len(c))
		}
		now[k] = d.id(sha1.Sum(readAt(path, int64(k)*fl.Csize, n)))
		if !known {
			added = append(added, []int{k, now[k]})
		} else if old != now[k] {
			changed = append(changed, []int{k, now[k]})
		}
	}
	for k := range d.seen[f] {
		if _, ok := now[k]; !ok {
			gone = append(gone, k)
		}
	}
	d.seen[f] = now
	return M{"op": "obs", "f": f, "listed": listed, "added": added, "changed": changed, "gone": gone}
}

// note records events at one moment, after what is observed of file f (if it is one)
func (d *downloader) note(f int, evs ...M) {
	d.rec.Lock()
	defer d.rec.Unlock()
	if f >= 0 {
		evs = append([]M{d.observe(f, false)}, evs...)
	}
	for _, ev := range evs {
		ev["at"] = int(time.Since(d.rec.t0) / time.Millisecond)
		d.rec.events = append(d.rec.events, recorded{0, len(d.rec.events), ev})
	}
}

func (d *downloader) find(h []byte) int {
	for i := range d.Files {
		if string(h) == string(d.Files[i].hash.Data[:]) {
			return i
		}
	}
	return -1
}

// happened counts occurrences, for the steps of the user that wait for them
func (d *downloader) idleFor() time.Duration {
	d.lock.Lock()
	defer d.lock.Unlock()
	return time.Since(d.lastAt)
}

func (d *downloader) happened(what string, f int) int {
	d.lock.Lock()
	key := what + itoa(f)
	d.count[key]++
	n := d.count[key]
	d.lastAt = time.Now()
	d.lock.Unlock()
	for i := range d.User {
		u := &d.User[i]
		if u.On == what && u.G == f && u.N == n {
			d.lock.Lock()
			over := d.over
			if !over {
				d.wg.Add(1)
			}
			d.lock.Unlock()
			if over {
				break
			}
			go func() {
				defer d.wg.Done()
				time.Sleep(time.Duration(u.Delay) * time.Millisecond)
				d.do(u)
			}()
			if u.Op == "remove" && u.Delay == 0 {
				time.Sleep(time.Duration(d.rand(3)) * time.Millisecond)
			}
		}
	}
	return n
}

func (d *downloader) do(u *dlStep) {
	f := &d.Files[u.F]
	switch u.Op {
	case "get":
		d.lock.Lock()
		if d.over {
			d.lock.Unlock()
			return
		}
		d.pending++
		d.calls++
		d.lock.Unlock()
		d.note(u.F, M{"op": "get", "f": u.F})
		var err error
		stuck := make(chan bool, 1)
		go func() {
			if d.node != nil {
				err = d.node.srv.StartDownload(&f.hash)
			} else {
				var c *rpc.Client
				c, err = rpc.Dial("unix", d.m.Sock())
				if err == nil {
					err = c.Call("Methods.Get", &cli.GetRequest{Sha1Hash: &f.hash}, &cli.GetResponse{})
					c.Close()
				}
			}
			stuck <- false
		}()
		select {
		case <-stuck:
			s := ""
			if err != nil {
				s = err.Error()
			}
			shape, path := d.shape(u.F)
			d.lock.Lock()
			d.gotAt[u.F] = time.Now()
			d.lock.Unlock()
			d.note(u.F, M{"op": "got", "f": u.F, "ok": err == nil, "err": s, "good": d.inside(path), "unique": d.unique(u.F, path), "shape": shape})
			d.lock.Lock()
			d.calls--
			d.lock.Unlock()
		case <-time.After(30 * time.Second):
			d.note(-1, M{"op": "stuck", "f": u.F})
		}
		if err != nil && u.Retry > 0 {
			again := *u
			again.Retry--
			time.Sleep(200 * time.Millisecond)
			d.do(&again) // counts as pending on its own
		}
		d.lock.Lock()
		d.pending--
		d.lastAt = time.Now()
		d.lock.Unlock()
	case "probe":
		d.probe()
	case "restart":
		d.reboot.Lock()
		d.lock.Lock()
		d.down = true
		d.pending++
		d.lock.Unlock()
		d.m.killDaemon()
		for t := 0; t < 500; t++ { // the requests that were under way fail
			d.lock.Lock()
			n := d.calls
			d.lock.Unlock()
			if n == 0 {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		for f := range d.Files {
			d.note(f)
		}
		d.note(-1, M{"op": "restart"})
		d.m.startDaemon(d.bin)
		d.lock.Lock()
		d.down = false
		d.lastAt = time.Now()
		d.lock.Unlock()
		d.reboot.Unlock()
		if u.Retry > 0 {
			again := *u
			again.Op = "get"
			d.do(&again)
		}
		d.lock.Lock()
		d.pending--
		d.lock.Unlock()
	case "remove":
		d.rec.Lock()
		before := d.observe(u.F, false)
		err := d.unshare(u.F)
		d.rec.events = append(d.rec.events, recorded{0, len(d.rec.events), before},
			recorded{0, len(d.rec.events) + 1, M{"op": "remove", "f": u.F, "ok": err == nil}})
		had := d.seen[u.F]
		if err == nil {
			d.seen[u.F] = map[int]int{}
		}
		d.rec.Unlock()
		d.lock.Lock()
		d.removed[u.F] = time.Now()
		d.lock.Unlock()
		if u.Ask && err == nil {
			for k := range had {
				d.serves(u.F, k, false)
				break
			}
		}
	}
}

// unshare removes a file from the catalogue. A daemon has no command for that, but cleans up files that
// are gone.
func (d *downloader) unshare(f int) error {
	if d.node != nil {
		return d.node.cat.UnshareFile(&d.Files[f].hash)
	}
	listed, _, path := d.view(f)
	if !listed {
		return fmt.Errorf("not listed")
	}
	for try := 0; try < 20; try++ { // what is being downloaded may come back
		os.Remove(path)
		c, err := rpc.Dial("unix", d.m.Sock())
		if err != nil {
			return err
		}
		err = c.Call("Methods.Clean", &cli.CleanRequest{}, &cli.CleanResponse{})
		c.Close()
		if listed, _, _ := d.view(f); !listed {
			return nil
		}
		if err != nil {
			return err
		}
	}
	return fmt.Errorf("still listed")
}

// serves asks the node for a chunk, like any peer may, and for its entry of the file
func (d *downloader) serves(f, k int, patient bool) {
	target := &net.UDPAddr{IP: net.ParseIP(d.ip), Port: d.port}
	h := d.Files[f].hash.Data
	got, n := 0, -1
	for try := 0; try < 3; try++ {
		s := listenOn("10.77.0.12", 0)
		s.WriteToUDP(openReq(h, k, 1), target)
		s.WriteToUDP(listReq(77, h), target)
		wait := 300 * time.Millisecond
		if patient {
			wait = time.Second
		}
		s.SetReadDeadline(time.Now().Add(wait))
		for got == 0 || n < 0 || !patient {
			b := make([]byte, 1<<16)
			m, _, err := s.ReadFromUDP(b)
			if err != nil {
				break
			}
			if m >= 29 && b[0] == 5 && binary.BigEndian.Uint32(b[1:5]) == 0 {
				got = d.id([20]byte(b[5:25]))
			} else if m >= 5 && b[0] == 3 {
				n = int(binary.BigEndian.Uint16(b[3:5]))
			}
		}
		s.Close()
		if !patient || got != 0 && n >= 0 {
			break
		}
	}
	d.note(-1, M{"op": "serve", "f": f, "k": k, "d": got, "entries": n, "end": patient})
}

// inside tells whether a path is one where the node may put downloads
func (d *downloader) inside(path string) bool {
	return path == "" || filepath.Dir(path) == d.dl() || strings.HasPrefix(path, filepath.Join(d.dir, "src"))
}

// unique tells whether no other file of the catalogue has that path
func (d *downloader) unique(f int, path string) bool {
	if path == "" {
		return true
	}
	for i := range d.Files {
		if i != f {
			if _, _, p := d.view(i); p == path {
				return false
			}
		}
	}
	return true
}

// tree lists what is in the directories around the node
func (d *downloader) tree() map[string]string {
	res := map[string]string{}
	filepath.Walk(d.dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(d.dir, p)
		if rel == d.catRel() || strings.HasPrefix(rel, d.catRel()+"/") || rel == d.dlRel() || strings.HasPrefix(rel, d.dlRel()+"/") {
			if info.IsDir() && rel != d.dlRel() {
				return filepath.SkipDir
			}
			return nil
		}
		if info.IsDir() {
			res[rel] = "dir"
		} else if info.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			res[rel] = sum(b)
		} else {
			res[rel] = info.Mode().String()
		}
		return nil
	})
	return res
}

func (d *downloader) dl() string {
	if d.m != nil {
		return d.m.DlDir()
	}
	return filepath.Join(d.home, "dl")
}
func (d *downloader) dlRel() string { r, _ := filepath.Rel(d.dir, d.dl()); return r }
func (d *downloader) catRel() string {
	if d.m != nil {
		r, _ := filepath.Rel(d.dir, d.m.CatDir())
		return r
	}
	r, _ := filepath.Rel(d.dir, filepath.Join(d.home, "cat"))
	return r
}

func changes(a, b map[string]string) []string {
	res := []string{}
	for k, v := range b {
		if a[k] != v {
			res = append(res, k)
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			res = append(res, k)
		}
	}
	sort.Strings(res)
	return res
}

func runs(set []int) []int {
	s := append([]int{}, set...)
	sort.Ints(s)
	r := []int{}
	for _, c := range s {
		if n := len(r); n > 0 && r[n-1] >= c-1 {
			r[n-1] = c
		} else {
			r = append(r, c, c)
		}
	}
	return r
}

// prepare makes the files and the entries that the node starts with
func (d *downloader) prepare(cat *catalogue.Cat) {
	used := map[[20]byte]bool{}
	for i := range d.Files {
		f := &d.Files[i]
		for t := 0; ; t++ {
			f.data = pattern(fmt.Sprint("dl", d.Seed, i, t), int(f.Size))
			f.lie = pattern(fmt.Sprint("lie", d.Seed, i, t), int(f.Size))
			f.hash.Data = sha1.Sum(f.data)
			if !used[f.hash.Data] && string(f.lie) != string(f.data) {
				break
			}
		}
		used[f.hash.Data] = true
		if len(f.Name) == 0 {
			f.Name = []byte("f" + itoa(i))
		}
		if f.Shared {
			f.path = filepath.Join(d.dir, "src", "f"+itoa(i))
			if f.InDl {
				f.path = filepath.Join(d.dl(), string(f.Name))
			}
			must(os.MkdirAll(filepath.Dir(f.path), 0755))
			must(os.WriteFile(f.path, f.data, 0644))
			_, err := cat.ShareFile(f.path)
			works(err)
			f.Csize = 1 << 22
			for k := 0; k < f.count(); k++ {
				f.Has = append(f.Has, k)
			}
		} else if f.Known {
			r, err := cat.RegisterDownload(uint64(f.Size), uint32(f.count()), uint32(f.Csize), &f.hash, string(f.Name))
			works(err)
			f.path = r.FilePath
			for _, k := range f.Has {
				works(cat.SaveChunk(&f.hash, uint16(k), f.chunk(f.data, k)))
			}
		}
		truth := make([]int, f.count())
		for k := range truth {
			truth[k] = d.id(sha1.Sum(f.chunk(f.data, k)))
		}
		if f.Impostor {
			f.data = f.lie
		}
		d.seen = append(d.seen, map[int]int{})
		for _, k := range f.Has {
			d.seen[i][k] = truth[k]
		}
		if f.Has == nil {
			f.Has = []int{}
		}
		d.note(-1, M{"op": "file", "f": i, "size": f.Size, "csize": f.Csize, "truth": truth, "known": f.Known || f.Shared, "has": f.Has})
	}
}

func (d *downloader) begin(cat *catalogue.Cat) {
	d.ids, d.count, d.gotAt, d.removed = map[[20]byte]int{}, map[string]int{}, map[int]time.Time{}, map[int]time.Time{}
	d.rng = rand.New(rand.NewSource(d.Seed))
	d.rec = newRecorder()
	d.prepare(cat)
}

func (d *downloader) run() {
	if d.node != nil {
		d.begin(d.node.cat)
	}
	var socks []*net.UDPConn
	for i := range d.Peers {
		p := &dlPeerState{dlPeer: &d.Peers[i], d: d, acks: map[string]chan uint32{}}
		p.conn = listenOn(p.address(), 0)
		p.addr = p.conn.LocalAddr().(*net.UDPAddr)
		p.name = p.addr.String()
		d.note(-1, M{"op": "peer", "p": p.name, "honest": p.Honest})
		d.peers = append(d.peers, p)
		socks = append(socks, p.conn)
		go p.loop()
	}
	if d.node != nil {
		bc := listenOn("255.255.255.255", d.port)
		socks = append(socks, bc)
		go d.watch(bc)
	}
	before := d.tree()
	d.lastAt = time.Now()
	start := time.Now()
	for i := range d.User {
		u := &d.User[i]
		if u.On == "start" || u.On == "ms" {
			d.wg.Add(1)
			go func() {
				defer d.wg.Done()
				if u.On == "ms" {
					time.Sleep(time.Duration(u.N) * time.Millisecond)
				}
				d.do(u)
			}()
		}
	}
	// until everything that was expected has happened, or nothing happens any more
	endAt := start.Add(time.Duration(d.Max) * time.Second)
	dropped, was := map[int]bool{}, map[int]bool{}
	for time.Now().Before(endAt) {
		time.Sleep(50 * time.Millisecond)
		if d.m != nil && !d.m.running() {
			d.lock.Lock()
			down := d.down
			d.lock.Unlock()
			if down {
				continue
			}
			if !d.m.running() {
				break
			}
		}
		done := true
		for f := range d.Files {
			listed, held, _ := d.view(f)
			complete := listed && len(held) == d.Files[f].count()
			if was[f] && !listed {
				d.happened("dropped", f)
			}
			was[f] = listed
			switch d.Files[f].Expect {
			case "finish":
				done = done && complete
			case "dropped":
				if complete {
					dropped[f] = true
				}
				done = done && !listed && (dropped[f] || d.idleFor() > 4*time.Second)
			case "settle":
				dropped[f] = dropped[f] || listed && !d.Files[f].Known
				done = done && (complete || !listed && dropped[f])
			case "rest":
				done = done && complete
			case "gone":
				d.lock.Lock()
				at, ok := d.removed[f]
				got, again := d.gotAt[f]
				d.lock.Unlock()
				done = done && (complete || !listed && ok && time.Since(at) > 3*time.Second && !(again && time.Since(got) < 3*time.Second))
			case "brief":
				d.lock.Lock()
				at, ok := d.gotAt[f]
				d.lock.Unlock()
				done = done && (complete || ok && time.Since(at) > 3*time.Second)
			}
		}
		d.lock.Lock()
		quiet := time.Since(d.lastAt)
		idle := d.pending == 0
		d.lock.Unlock()
		waiting := false
		for _, u := range d.User {
			if u.On == "ms" && time.Since(start) < time.Duration(u.N+100)*time.Millisecond {
				waiting = true
			}
		}
		if !waiting && idle && (done || quiet > time.Duration(d.Quiet)*time.Second) {
			break
		}
	}
	for i := range d.User {
		if d.User[i].On == "end" {
			d.do(&d.User[i])
		}
	}
	d.lock.Lock()
	d.over = true
	d.lock.Unlock()
	d.wg.Wait()
	time.Sleep(30 * time.Millisecond)
	d.rec.Lock()
	evs := []M{}
	for f := range d.Files {
		evs = append(evs, d.observe(f, true))
		switch d.Files[f].Expect {
		case "finish":
			evs = append(evs, M{"op": "finished", "f": f})
		case "settle":
			evs = append(evs, M{"op": "settled", "f": f})
		case "dropped":
			evs = append(evs, M{"op": "unkept", "f": f})
		default:
			evs = append(evs, M{"op": "rest", "f": f})
		}
	}
	evs = append(evs, M{"op": "outside", "changes": changes(before, d.tree())})
	for _, e := range evs {
		d.rec.events = append(d.rec.events, recorded{0, len(d.rec.events), e})
	}
	last, whole := []int{}, []bool{}
	for f := range d.Files {
		k := d.rand(d.Files[f].count())
		for c := range d.seen[f] {
			if _, ok := d.seen[f][k]; !ok || c > k {
				k = c
			}
		}
		last, whole = append(last, k), append(whole, len(d.seen[f]) == d.Files[f].count())
	}
	d.rec.Unlock()
	for f, k := range last {
		if k < 1<<16 && d.Files[f].Size < 1<<26 {
			d.serves(f, k, d.Files[f].Expect == "finish" && whole[f])
		}
	}
	d.probe()
	if d.node != nil {
		for f := range d.Files { // ends what is still going on
			d.node.cat.UnshareFile(&d.Files[f].hash)
		}
	}
	for _, s := range socks {
		s.Close()
	}
}

// probe: the node answers others, and its user
func (d *downloader) probe() {
	ok := false
	target := &net.UDPAddr{IP: net.ParseIP(d.ip), Port: d.port}
	s := listenOn("10.77.0.12", 0)
	defer s.Close()
	var h [20]byte
	for i := range h {
		h[i] = 255
	}
	for try := 0; try < 3 && !ok; try++ {
		s.WriteToUDP(listReq(99, h), target)
		s.SetReadDeadline(time.Now().Add(3 * time.Second))
		b := make([]byte, 1<<16)
		n, _, err := s.ReadFromUDP(b)
		ok = err == nil && n >= 5 && b[0] == 3
	}
	if d.m != nil {
		n := 0
		for f := range d.Files {
			if l, _, _ := d.view(f); l {
				n++
			}
		}
		ok = ok && d.m.running() && rpcAlive(d.m.Sock(), n)
	}
	d.note(-1, M{"op": "alive", "ok": ok})
}

// watch sees the node's discoveries
func (d *downloader) watch(c *net.UDPConn) {
	for {
		b := make([]byte, 2048)
		n, from, err := c.ReadFromUDP(b)
		if err != nil {
			return
		}
		if from.IP.Equal(net.ParseIP(d.ip)) {
			d.discovery(b[:n])
		}
	}
}

func (d *downloader) discovery(b []byte) {
	n := len(b)
	if n < 24 || b[0] != 0 {
		return
	}
	f := d.find(b[3:23])
	q := []int{}
	for i := 24; i+1 < n; i += 2 {
		q = append(q, int(binary.BigEndian.Uint16(b[i:])))
	}
	id := int(binary.BigEndian.Uint16(b[1:3]))
	d.note(f, M{"op": "disc", "f": f, "q": q})
	k := d.happened("disc", f)
	if f < 0 {
		return
	}
	for _, p := range d.peers {
		p.answer(f, id, q, k)
	}
}

// answer to discovery number n of file f
func (p *dlPeerState) answer(f, id int, q []int, n int) {
	d := p.d
	target := &net.UDPAddr{IP: net.ParseIP(d.ip), Port: d.port}
	if n < p.From || (p.Until > 0 && n >= p.Until) || d.chance(p.Deaf) {
		return
	}
	kind := ""
	if p.answers < len(p.Answers) {
		kind = p.Answers[p.answers]
		p.answers++
	}
	m := wmsg{T: 1, ID: id, Addr: ints(p.addr.IP.To4()), Port: p.addr.Port, Chunks: []int{}}
	name := p.name
	mine := []int{}
	if f < len(p.Have) {
		for _, k := range p.Have[f] {
			in := p.All || len(q) == 0
			for i := 0; i+1 < len(q); i += 2 {
				in = in || (k >= q[i] && k <= q[i+1])
			}
			if in {
				mine = append(mine, k)
			}
		}
	}
	m.Chunks = runs(mine)
	if len(m.Chunks) > 254 {
		m.Chunks = m.Chunks[:254]
	}
	var raw []byte
	switch kind {
	case "", "twice":
	case "self": // claims to be the node itself
		m.Addr, m.Port = ints(net.ParseIP(d.ip).To4()), d.port
		name = fmt.Sprint(d.ip, ":", d.port)
	case "all":
		m.Chunks = []int{0, 65535}
	case "odd":
		m.Chunks = append(m.Chunks, 0)
	case "reversed":
		m.Chunks = []int{5, 0}
	case "beyond":
		m.Chunks = []int{d.Files[f].count(), 65535}
	case "nowhere":
		m.Addr, m.Port = []int{10, 77, 0, 11}, 9
		name = "10.77.0.11:9"
		m.Chunks = []int{0, 65535}
	case "port0":
		m.Port = 0
		name = "0"
		m.Chunks = []int{0, 65535}
	case "zero":
		m.Addr = []int{0, 0, 0, 0}
		name = "zero"
	case "otherid":
		m.ID = (m.ID + 1 + d.rand(65535)) % 65536
		name = ""
	case "broadcast":
		m.Addr, m.Port = []int{255, 255, 255, 255}, d.port
		name = "bc"
	case "short", "cut":
		raw = m.encode()
		raw = raw[:d.rand(len(raw))]
	case "type":
		raw = m.encode()
		raw[0] = byte(2 + d.rand(254))
	case "garbage":
		raw = make([]byte, d.rand(60))
		d.rlock.Lock()
		d.rng.Read(raw)
		d.rlock.Unlock()
		if len(raw) > 3 {
			raw[0], raw[1], raw[2] = byte(d.rand(8)), byte(id>>8), byte(id)
		}
	case "none":
		return
	}
	if raw == nil {
		raw = m.encode()
		if name != "" {
			d.note(-1, M{"op": "offer", "f": f, "p": name, "chunks": m.Chunks})
		}
	}
	for k := 0; k < 1+len(kind)/5*0; k++ {
		p.conn.WriteToUDP(raw, target)
	}
	if kind == "twice" {
		p.conn.WriteToUDP(raw, target)
		p.conn.WriteToUDP(raw, target)
	}
}

func (p *dlPeerState) loop() {
	for {
		b := make([]byte, 4096)
		n, from, err := p.conn.ReadFromUDP(b)
		if err != nil {
			if strings.Contains(err.Error(), "closed") {
				return
			}
			continue
		}
		b = b[:n]
		if n == 0 || !from.IP.Equal(net.ParseIP(p.d.ip)) {
			continue
		}
		switch {
		case b[0] == 2 && n >= 23:
			p.list(b, from)
		case b[0] == 4 && n >= 25:
			f := p.d.find(b[1:21])
			k := int(binary.BigEndian.Uint16(b[21:23]))
			cap := int(binary.BigEndian.Uint16(b[23:25]))
			ch := make(chan uint32, 4096)
			p.lock.Lock()
			p.acks[from.String()] = ch
			t := p.transfers
			p.transfers++
			p.lock.Unlock()
			p.d.note(f, M{"op": "open", "f": f, "p": p.name, "k": k, "cap": cap})
			p.d.happened("open", f)
			plan := p.After
			if t < len(p.Plans) {
				plan = p.Plans[t]
			}
			go p.transfer(from, f, k, cap, plan, ch)
		case b[0] == 6 && n >= 5:
			p.lock.Lock()
			ch := p.acks[from.String()]
			p.lock.Unlock()
			if ch != nil {
				select {
				case ch <- binary.BigEndian.Uint32(b[1:5]):
				default:
				}
			}
		}
	}
}

func (p *dlPeerState) list(b []byte, from *net.UDPAddr) {
	d := p.d
	f := d.find(b[3:23])
	m := wmsg{T: 3, ID: int(binary.BigEndian.Uint16(b[1:3])), Files: []wfile{}}
	if f < 0 {
		d.note(-1, M{"op": "list", "f": f})
		p.conn.WriteToUDP(m.encode(), from)
		return
	}
	d.happened("meta", f)
	fl := &d.Files[f]
	said := []interface{}{big(fl.Size), big(fl.Csize), fl.count()}
	have := 0
	if f < len(p.Have) {
		have = len(p.Have[f])
	}
	e := wfile{Hash: ints(fl.hash.Data[:]), Name: ints(fl.Name), Size: be(uint64(fl.Size), 8), Csize: be(uint64(fl.Csize), 4),
		Count: be(uint64(fl.count()), 4), Have: be(uint64(have), 4)}
	n := 1
	kind := ""
	if p.MetaLie && fl.Meta != nil {
		x := fl.Meta
		name := x.Name
		if len(name) > 0 && name[0] == '@' { // an absolute path, but only inside of this directory
			name = append([]byte(d.dir), name[1:]...)
		}
		if len(name) > 255 {
			name = name[len(name)-255:]
		}
		e.Name, e.Size, e.Csize, e.Count = ints(name), be(x.Size, 8), be(uint64(x.Csize), 4), be(uint64(x.Count), 4)
		n = x.Entries
		kind = x.Reply
		c := int64(x.Count)
		if c > 1<<16 {
			c = 70000
		}
		said = []interface{}{bigU(x.Size), big(int64(x.Csize)), c}
		if n != 1 || kind != "" {
			said = []interface{}{}
		}
	}
	d.note(-1, M{"op": "list", "f": f, "meta": said})
	for k := 0; k < n; k++ {
		m.Files = append(m.Files, e)
	}
	raw := []byte{}
	switch kind {
	case "none":
		return
	case "otherhash":
		var h [20]byte
		copy(h[:], fl.hash.Data[:])
		h[d.rand(20)] ^= byte(1 + d.rand(255))
		m.Files[0].Hash = ints(h[:])
		raw = m.encode()
	case "cut":
		raw = m.encode()
		raw = raw[:d.rand(len(raw))]
	case "type":
		raw = m.encode()
		raw[0] = byte(d.rand(256))
	case "empty":
	default:
		raw = m.encode()
	}
	p.conn.WriteToUDP(raw, from)
}

// send makes a data packet
func (p *dlPeerState) send(to *net.UDPAddr, f, k int, b []byte) {
	if len(b) >= 29 && binary.BigEndian.Uint32(b[1:5]) == 0 {
		var h [20]byte
		copy(h[:], b[5:25])
		size := int64(binary.BigEndian.Uint32(b[25:29]))
		if size > 1<<31-1 {
			size = -1
		}
		p.d.note(-1, M{"op": "announce", "f": f, "k": k, "d": p.d.id(h), "size": size})
	}
	p.d.happened("packet", f)
	if p.d.chance(p.Loss) {
		return
	}
	p.conn.WriteToUDP(b, to)
}

func dataPacket(off uint32, data []byte) []byte {
	b := make([]byte, 5+len(data))
	b[0] = 5
	binary.BigEndian.PutUint32(b[1:5], off)
	copy(b[5:], data)
	return b
}

// packets are all packets of a transfer of content c
func packets(c []byte) [][]byte {
	h := sha1.Sum(c)
	head := binary.BigEndian.AppendUint32(append([]byte{}, h[:]...), uint32(len(c)))
	n := len(c)
	if n > 1000 {
		n = 1000
	}
	ps := [][]byte{dataPacket(0, append(head, c[:n]...))}
	for off := n; off < len(c); off += 1024 {
		hi := off + 1024
		if hi > len(c) {
			hi = len(c)
		}
		ps = append(ps, dataPacket(uint32(off), c[off:hi]))
	}
	return append(ps, dataPacket(uint32(len(c)), nil))
}

// transfer sends packets according to a plan: tokens separated by blanks
func (p *dlPeerState) transfer(to *net.UDPAddr, f, k, cap int, plan string, acks chan uint32) {
	d := p.d
	if f < 0 {
		return
	}
	fl := &d.Files[f]
	c := fl.chunk(fl.data, k)
	if c == nil {
		c = []byte("no such chunk")
	}
	ps := packets(c)
	last := len(ps) - 1
	put := func(b []byte) { p.send(to, f, k, b) }
	clone := func(i int) []byte {
		if i > last {
			i = last
		}
		return append([]byte{}, ps[i]...)
	}
	pace := time.Duration(0) // how long a transfer is to take
	windowed := func(order []int) {
		w := 0
		start := time.Now()
		for n, i := range order {
			if ahead := pace*time.Duration(n)/time.Duration(len(order)) - time.Since(start); ahead > 0 {
				time.Sleep(ahead)
			}
			for w >= cap {
				select {
				case <-acks:
					w--
				case <-time.After(6 * time.Second):
					return
				}
			}
			put(ps[i])
			w++
		drain:
			for {
				select {
				case <-acks:
					w--
				default:
					break drain
				}
			}
		}
	}
	all := make([]int, len(ps))
	for i := range all {
		all[i] = i
	}
	for _, tok := range strings.Fields(plan) {
		arg := 0
		if n := strings.IndexAny(tok, "0123456789"); n > 0 {
			arg, _ = strconv.Atoi(tok[n:])
			tok = tok[:n]
		}
		switch tok {
		case "silence":
		case "good":
			windowed(all)
		case "pace": // the whole chunk, but slowly
			pace = time.Duration(arg) * time.Millisecond
			windowed(all)
		case "lie": // other content, consistently; arg: longer by 1, 2: shorter by 1, 3: empty
			c = fl.chunk(fl.lie, k)
			switch arg {
			case 1:
				c = append(append([]byte{}, c...), 7)
			case 2:
				c = c[:len(c)-1]
			case 3:
				c = []byte{}
			case 4: // a whole chunk where a shorter one belongs
				c = pattern("whole", int(fl.Csize))
			}
			ps = packets(c)
			last = len(ps) - 1
			all = all[:0]
			for i := range ps {
				all = append(all, i)
			}
		case "head":
			put(ps[0])
		case "rest": // all but the first and the last
			for i := 1; i < last; i++ {
				put(ps[i])
			}
		case "D":
			put(clone(arg))
		case "E":
			put(ps[last])
		case "badhash":
			b := clone(0)
			b[5+d.rand(20)] ^= byte(1 << d.rand(8))
			put(b)
		case "size": // arg: 0 none, 1: one less, 2: one more, 3: the chunk size + 1, 4: the largest, 5: half, 6: 2^31
			b := clone(0)
			n := []int64{0, int64(len(c)) - 1, int64(len(c)) + 1, fl.Csize + 1, 1<<32 - 1, int64(len(c) / 2), 1 << 31}[arg%7]
			binary.BigEndian.PutUint32(b[25:29], uint32(n))
			put(b)
		case "shorthead":
			put(clone(0)[:5+arg%24])
		case "X": // corrupted data
			b := clone(arg)
			if len(b) > 29 {
				b[len(b)-1-d.rand(len(b)-29)] ^= byte(1 << d.rand(8))
			} else if len(b) > 5 {
				b[len(b)-1] ^= 1
			}
			put(b)
		case "C": // cut
			b := clone(arg)
			if len(b) > 30 {
				b = b[:30+d.rand(len(b)-30)]
			}
			put(b)
		case "L": // too long
			put(append(clone(arg), pattern("long", 1+d.rand(40))...))
		case "S": // shifted
			b := clone(arg)
			off := binary.BigEndian.Uint32(b[1:5])
			binary.BigEndian.PutUint32(b[1:5], off+1)
			put(b)
		case "beyond":
			put(dataPacket(uint32(len(c))+uint32(arg), []byte("x")))
		case "max":
			put(dataPacket(1<<32-1-uint32(arg), []byte("y")))
		case "mid": // an empty packet that is not the end
			put(dataPacket(uint32(1+d.rand(len(c)+1)), nil))
		case "zero": // an empty packet at offset 0
			put(dataPacket(0, nil))
		case "tiny":
			put([]byte{5, 0, 0, 0}[:arg%5])
		case "T": // not a data packet
			b := clone(arg)
			b[0] = byte(d.rand(256))
			put(b)
		case "junk":
			b := make([]byte, d.rand(1100))
			d.rlock.Lock()
			d.rng.Read(b)
			d.rlock.Unlock()
			if len(b) >= 5 && d.rand(2) == 0 {
				b[0] = 5
				binary.BigEndian.PutUint32(b[1:5], uint32(d.rand(len(c)+1100)))
			}
			put(b)
		case "dup": // everything twice
			for i := range ps {
				put(ps[i])
				if i < last {
					put(ps[i])
				}
			}
		case "back": // the data in reversed order
			put(ps[0])
			for i := last - 1; i > 0; i-- {
				put(ps[i])
			}
			put(ps[last])
		case "flood": // for a while
			for t := time.Now(); time.Since(t) < time.Duration(arg)*time.Millisecond; {
				b := make([]byte, d.rand(1100))
				if len(b) >= 5 {
					b[0] = 5
					binary.BigEndian.PutUint32(b[1:5], uint32(1+d.rand(len(c)+50)))
				}
				put(b)
				time.Sleep(100 * time.Microsecond)
			}
		case "trickle": // next to nothing at a time, for ever; arg: the same, or a byte more
			put(ps[0])
			for n := 0; n < 300; n++ {
				d.lock.Lock()
				over := d.over
				d.lock.Unlock()
				if over {
					return
				}
				time.Sleep(time.Duration(300+d.rand(600)) * time.Millisecond)
				if off := 1000 + n; arg == 1 && off < len(c) {
					put(dataPacket(uint32(off), c[off:off+1]))
				} else {
					put(clone(arg % 2))
				}
			}
		case "P":
			time.Sleep(time.Duration(arg) * time.Millisecond)
		case "end": // makes the node give up
			time.Sleep(100 * time.Millisecond)
			put(ps[0][:20])
		default:
			must(fmt.Errorf("unknown token %q", tok))
		}
	}
}

func downloadCmd(args []string) {
	var j dlJob
	readJSON(args[0], &j)
	var lock sync.Mutex
	traces := make([][]M, len(j.Scenes))
	out := M{}
	ds := make([]*downloader, len(j.Scenes))
	if j.Bin != "" {
		// all daemons are on one LAN
		bc := listenOn("255.255.255.255", fluPort)
		defer bc.Close()
		go func() {
			for {
				b := make([]byte, 2048)
				n, from, err := bc.ReadFromUDP(b)
				if err != nil {
					return
				}
				lock.Lock()
				for _, d := range ds {
					if d != nil && from.IP.Equal(net.ParseIP(d.ip)) {
						go d.discovery(b[:n])
					}
				}
				lock.Unlock()
			}
		}()
	}
	parallel(len(j.Scenes), j.Workers, func(i int) {
		d := &downloader{dlScene: &j.Scenes[i], bin: j.Bin, ip: nodeIP}
		if j.Bin == "" {
			d.dir = filepath.Join(j.Work, "s"+itoa(i))
			d.home = filepath.Join(d.dir, "a", "b", "c", "d", "node")
			d.port = freePort()
			d.node = startNode(d.home, d.port)
			must(os.MkdirAll(filepath.Join(d.home, "dl"), 0755))
			d.run()
			traces[i] = d.rec.trace()
			d.node.stop()
			os.RemoveAll(d.dir)
			return
		}
		d.m = &machine{Dir: filepath.Join(j.Work, "node"+itoa(i+1)), K: i + 1, Memory: j.Memory}
		d.ip = d.m.IP()
		d.port = fluPort
		d.dir = d.m.Home()
		d.home = filepath.Dir(d.m.DlDir())
		must(os.MkdirAll(d.m.DlDir(), 0755))
		cat, err := d.cat()
		must(err)
		d.begin(cat)
		d.m.startDaemon(j.Bin)
		lock.Lock()
		ds[i] = d
		lock.Unlock()
		d.run()
		lock.Lock()
		if !d.m.running() {
			log, _ := os.ReadFile(d.m.Log())
			out["crash"] = string(log)
		} else {
			d.m.killDaemon()
		}
		lock.Unlock()
		traces[i] = d.rec.trace()
	})
	out["traces"] = traces
	writeJSON(args[1], out)
}
