package main

import (
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
)

func init() {
	commands["cat"] = catCmd
	commands["catop"] = catopCmd
	commands["crash"] = crashCmd
	commands["conc"] = concCmd
}

// catOp is one step of a history of a catalogue. Paths are below the scratch directory of the history.
type catOp struct {
	Op    string
	Path  []byte `json:",omitempty"` // share, outside
	C     int    // content: share's is what the file holds; register, save, ...
	Name  []byte `json:",omitempty"` // register
	Dims  string `json:",omitempty"` // register: "" or what is wrong with the dimensions
	Chunk int
	Data  string `json:",omitempty"` // save: good, other, short, long, empty
	// stored: what an earlier version has left
	Entries []storedEntry `json:",omitempty"`
	Kind    string        `json:",omitempty"` // outside: write, remove, dir, fifo, flip, cut, append; snapshot ids: Chunk
}

// storedEntry is an entry of a stored catalogue. Bytes is its file of held chunks.
type storedEntry struct {
	C     int
	CSize int64
	Path  []byte
	Held  []int
	Bytes []int
}

// store writes a catalogue as the first version did
func (w *catWorld) store(o catOp) []M {
	dir := w.catDir()
	must(os.RemoveAll(dir))
	must(os.MkdirAll(dir, 0755))
	parts := []string{}
	res := []M{}
	for _, x := range o.Entries {
		size := w.h.Contents[x.C].Size
		hash := w.h.hashOf(x.C).String()
		p := w.abs(x.Path)
		b := make([]byte, len(x.Bytes))
		for i := range b {
			b[i] = byte(x.Bytes[i])
		}
		must(os.WriteFile(filepath.Join(dir, hash), b, 0664))
		parts = append(parts, fmt.Sprintf(`"%s":{"FilePath":%s,"SizeInBytes":%d,"Sha1Hash":"%s","ChunkSize":%d}`, hash, strconv.Quote(p), size, hash, x.CSize))
		if strings.HasPrefix(string(x.Path), "dl/") {
			must(os.MkdirAll(filepath.Dir(p), 0755))
			f, err := os.OpenFile(p, os.O_CREATE|os.O_RDWR, 0777)
			must(err)
			for _, k := range x.Held {
				_, err := f.WriteAt(w.h.bytesOf(x.C)[int64(k)*x.CSize:][:catContent{size, x.CSize}.chunkLen(int64(k))], int64(k)*x.CSize)
				must(err)
			}
			must(f.Close())
		}
		res = append(res, M{"hash": hash, "path": w.show(p), "size": big(size), "csize": big(x.CSize), "bytes": x.Bytes})
	}
	claimed := dir
	if w.h.Seed%3 == 0 {
		claimed = w.D + "/elsewhere"
	}
	must(os.WriteFile(filepath.Join(dir, "index.json"), []byte(fmt.Sprintf(`{"Pid":%d,"LastTouched":%d,"Index":{%s},"DataDir":%s}`,
		1+w.h.Seed%30000, 1600000000+w.h.Seed%1000000, strings.Join(parts, ","), strconv.Quote(claimed))), 0664))
	return res
}

type catContent struct{ Size, CSize int64 }

type history struct {
	Seed     int64
	Contents []catContent
	Ops      []catOp
	Last     string // what happens after Ops: "", or see crashCmd
	Lean     bool   // observe only at the end
	Shy      bool   // the live catalogue is asked nothing but what the operations ask, until the end
}

var contentCache sync.Map

// bytesOf is the bytes of a content
func (h *history) bytesOf(c int) []byte {
	key := fmt.Sprint(h.Seed, c, h.Contents[c].Size)
	if b, ok := contentCache.Load(key); ok {
		return b.([]byte)
	}
	b := make([]byte, h.Contents[c].Size)
	r := rand.New(rand.NewSource(h.Seed*1000 + int64(c)))
	r.Read(b)
	if r.Intn(4) == 0 { // some are repetitive, some have stretches of zeros
		for i := range b {
			b[i] = byte(i / 4096 * 0)
		}
		copy(b, []byte(fmt.Sprint(h.Seed, "/", c)))
	}
	if len(b) < 1<<17 {
		contentCache.Store(key, b)
	}
	return b
}

// hashOf is the hash of a content. The files of huge contents are never complete: any hash will do.
func (h *history) hashOf(c int) *common.Sha1Hash {
	if h.Contents[c].Size >= hugeSize {
		return sha1Of([]byte(fmt.Sprint("huge", h.Seed, c)))
	}
	return sha1Of(h.bytesOf(c))
}

// chunkOf is the bytes of a chunk that the content has
func (h *history) chunkOf(c int, k int64) []byte {
	cc := h.Contents[c]
	if cc.Size < hugeSize {
		return h.bytesOf(c)[k*cc.CSize:][:cc.chunkLen(k)]
	}
	b := make([]byte, cc.chunkLen(k))
	rand.New(rand.NewSource(h.Seed*1000 + int64(c)*70000 + k)).Read(b)
	return b
}

const hugeSize = 64 << 20

func sum(b []byte) string { s := sha1.Sum(b); return hex.EncodeToString(s[:]) }

func sha1Of(b []byte) *common.Sha1Hash {
	s := sha1.Sum(b)
	return (&common.Sha1Hash{}).FromSlice(s[:])
}

// chunkLen is the length of chunk k of a content, -1 if there is no such chunk
func (c catContent) chunkLen(k int64) int64 {
	if k < 0 || k*c.CSize >= c.Size {
		return -1
	}
	if (k+1)*c.CSize > c.Size {
		return c.Size - k*c.CSize
	}
	return c.CSize
}

func (c catContent) chunks() int64 {
	n := c.Size / c.CSize
	if c.Size%c.CSize != 0 {
		n++
	}
	return n
}

// big is a number as BigNat.tla has it
func big(n int64) []int64 {
	r := []int64{}
	if n < 0 {
		return []int64{-1}
	}
	for ; n > 0; n /= 10000 {
		r = append(r, n%10000)
	}
	return r
}

// world is the scratch directory of a history and the catalogue in it
type catWorld struct {
	faulty  bool // file-system calls may fail, for an operation on faultyC
	faultyC int
	D       string
	h       *history
	cat     *catalogue.Cat
	file    map[string]*os.File
	// snapshots taken, and how they looked
	snaps map[int]*snap
	m     *machine // the catalogue is that of this machine's daemon
}

func (w *catWorld) catDir() string {
	if w.m != nil {
		return w.m.CatDir()
	}
	return w.D + "/cat"
}

func (w *catWorld) dlDir() string {
	if w.m != nil {
		return w.m.DlDir()
	}
	return w.D + "/dl"
}

type snap struct {
	list  []catalogue.IndexRecordExport
	rec   *catalogue.IndexRecordExport
	first string
}

// show makes a path comparable and printable
func (w *catWorld) show(p string) string {
	if w.m != nil {
		p = strings.Replace(p, w.dlDir(), "$D/dl", 1)
	}
	p = strings.Replace(p, w.D, "$D", 1)
	if !utf8.ValidString(p) {
		p = fmt.Sprintf("%+q", p)
	}
	return p
}

func (w *catWorld) abs(p []byte) string { return w.D + "/" + string(p) }

func newWorld(dir string, h *history) *catWorld {
	for _, s := range []string{"", "/s", "/o"} {
		must(os.MkdirAll(dir+s, 0755))
	}
	return &catWorld{D: dir, h: h, snaps: map[int]*snap{}}
}

func (w *catWorld) open() error {
	cat, err := catalogue.NewCat(w.catDir(), w.dlDir())
	if err != nil {
		return err
	}
	if err := cat.Init(); err != nil {
		return err
	}
	w.cat = cat
	return nil
}

// files lists the regular files that the operations are about
func (w *catWorld) files() []M {
	res := []M{}
	for _, d := range []string{w.D + "/s", w.dlDir()} {
		filepath.WalkDir(d, func(p string, e os.DirEntry, err error) error {
			if err != nil || e.IsDir() {
				return nil
			}
			if info, err := os.Stat(p); err != nil || !info.Mode().IsRegular() {
				return nil
			}
			var b []byte
			var size int64
			if info, err := os.Stat(p); err == nil && info.Size() < hugeSize {
				b, err = os.ReadFile(p)
				must(err)
				size = int64(len(b))
			} else {
				size = info.Size()
				b = []byte(fmt.Sprint("huge", size))
			}
			res = append(res, M{"path": w.show(p), "hash": sum(b), "size": big(size)})
			return nil
		})
	}
	sort.Slice(res, func(i, j int) bool { return res[i]["path"].(string) < res[j]["path"].(string) })
	return res
}

// read returns n bytes of the file at offset off, as the world outside sees them
func readAt(path string, off, n int64) []byte {
	if info, err := os.Stat(path); err != nil || !info.Mode().IsRegular() {
		return nil
	}
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	if n > hugeSize {
		return nil
	}
	b := make([]byte, n)
	k, _ := f.ReadAt(b, off)
	if int64(k) < n {
		return nil
	}
	return b
}

func pairs(rs []uint16) []int {
	r := make([]int, 0, len(rs))
	for _, x := range rs {
		r = append(r, int(x))
	}
	return r
}

// entry is an entry of a listing as the specification sees it
func (w *catWorld) entry(r *catalogue.IndexRecordExport, digests bool) M {
	held := pairs(r.Progress.Ranges())
	e := M{"hash": r.Sha1Hash.String(), "path": w.show(r.FilePath), "size": big(r.SizeInBytes),
		"csize": big(int64(r.ChunkSize)), "count": r.Progress.Size(), "held": held,
		"heldCount": r.Progress.Count(), "full": r.Progress.Full()}
	ds := [][]interface{}{}
	// what the file holds for each held chunk
	if digests && r.ChunkSize > 0 {
		c := catContent{r.SizeInBytes, int64(r.ChunkSize)}
		for i := 0; i+1 < len(held); i += 2 {
			for k := held[i]; k <= held[i+1]; k++ {
				if n := c.chunkLen(int64(k)); n >= 0 {
					ds = append(ds, []interface{}{k, sum(readAt(r.FilePath, int64(k)*c.CSize, n))})
				}
			}
		}
	}
	e["digests"] = ds
	return e
}

func (w *catWorld) list(cat *catalogue.Cat, questions, digests bool) []M {
	l, err := cat.ListFiles()
	if err != nil {
		return []M{{"hash": "listing failed: " + err.Error()}}
	}
	res := []M{}
	for i := range l {
		e := w.entry(&l[i], digests)
		if questions {
			h := l[i].Sha1Hash
			m := []int{}
			for _, r := range cat.MissingChunks(&h, math.MaxUint16) {
				m = append(m, int(r.Start), int(r.End))
			}
			e["missing"] = m
			e["complete"] = cat.FileComplete(&h)
		}
		res = append(res, e)
	}
	return res
}

// listed tells whether a listing did not fail
func listed(l []M) bool {
	return len(l) != 1 || !strings.HasPrefix(l[0]["hash"].(string), "listing failed")
}

// reopened shows the catalogue as a new process would see it
func (w *catWorld) reopened(dir string) (res []M, ok bool) {
	cat, err := catalogue.NewCat(dir, w.dlDir())
	if err == nil {
		err = cat.Init()
	}
	if err != nil {
		return []M{{"hash": "reopening failed: " + err.Error()}}, false
	}
	return w.list(cat, false, true), true
}

// look is a catalogue to ask about what there is
func (w *catWorld) look() *catalogue.Cat {
	if !w.h.Shy {
		return w.cat
	}
	if cat, err := catalogue.NewCat(w.D+"/cat", w.dlDir()); err == nil && cat.Init() == nil {
		return cat
	}
	return w.cat
}

// observe adds what can be seen after an operation
func (w *catWorld) observe(e M, questions bool) M {
	e["fs"] = w.files()
	e["live"] = w.list(w.cat, questions, true)
	e["disk"], _ = w.reopened(w.D + "/cat")
	return e
}

// named lists the listed paths that an error message names
func (w *catWorld) named(err error) []string {
	res := []string{}
	if err == nil {
		return res
	}
	l, e := w.look().ListFiles()
	if e != nil {
		return res
	}
	for _, r := range l {
		q := strings.Trim(strconv.Quote(r.FilePath), `"`)
		if strings.Contains(err.Error(), r.FilePath) || strings.Contains(err.Error(), q) {
			res = append(res, w.show(r.FilePath))
		}
	}
	return res
}

func baseName(name string) (string, bool) {
	n := strings.TrimRight(name, "/")
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		n = n[i+1:]
	}
	return n, n == "" || n == "." || n == ".." || strings.IndexByte(n, 0) >= 0
}

// dims returns the dimensions that a register operation gives
func (w *catWorld) dims(o catOp) (size uint64, count, csize uint32) {
	c := w.h.Contents[o.C]
	size, count, csize = uint64(c.Size), uint32(c.chunks()), uint32(c.CSize)
	switch o.Dims {
	case "more":
		count++
	case "fewer":
		count--
	case "zero":
		csize = 0
	case "zeroall":
		size, csize, count = 0, 0, 0
	case "huge":
		size = 1<<63 + 5
	case "negative":
		size = math.MaxUint64
	case "many":
		size, csize, count = 65537, 1, 65537
	case "wrap":
		size, csize, count = 1<<32, 1, 0
	case "wide":
		csize, count = math.MaxUint32, 1
	}
	return
}

// place tells whether a download's file can be written at all
func (w *catWorld) place(path string) bool {
	for d := filepath.Dir(path); len(d) >= len(w.D); d = filepath.Dir(d) {
		if info, err := os.Stat(d); err == nil && !info.IsDir() {
			return false
		}
	}
	info, err := os.Lstat(path)
	if err != nil {
		return os.IsNotExist(err) && len(filepath.Base(path)) <= 255
	}
	return info.Mode().IsRegular()
}

func errText(e M, err error) M {
	e["ok"] = err == nil
	if err != nil {
		e["err"] = fmt.Sprintf("%+q", err.Error())
	}
	return e
}

// do executes an operation on the catalogue, and returns it with its result
func (w *catWorld) do(o catOp) M {
	t := time.AfterFunc(100*time.Second, func() { works(fmt.Errorf("an operation never returned: %+v", o)) })
	defer t.Stop()
	e := M{"op": o.Op}
	var hash *common.Sha1Hash
	if o.C >= 0 && o.Op != "share" && o.Op != "outside" && o.Op != "stored" {
		hash = w.h.hashOf(o.C)
		e["hash"] = hash.String()
	}
	switch o.Op {
	case "share":
		p := w.abs(o.Path)
		e["path"] = w.show(filepath.Clean(p))
		rec, err := w.cat.ShareFile(p)
		errText(e, err)
		e["named"] = w.named(err)
		e["count"] = 0
		if err == nil {
			h := rec.Sha1Hash
			if r, err := w.look().Contains(&h); err == nil {
				e["count"] = r.Progress.Size()
			}
		}
	case "register":
		size, count, csize := w.dims(o)
		e["size"], e["count"], e["csize"] = big(int64(size>>1)), count, big(int64(csize))
		e["size"] = bigU(size)
		if count > 1<<30 {
			e["count"] = 1 << 30
		}
		base, bad := baseName(string(o.Name))
		e["base"], e["badname"] = w.show(w.D+"/dl/"+base), bad
		rec, err := w.cat.RegisterDownload(size, count, csize, hash, string(o.Name))
		errText(e, err)
		e["named"], e["path"], e["dir"] = w.named(err), "", ""
		if err == nil {
			e["res"] = w.entry(rec, false)
			e["path"], e["dir"] = w.show(rec.FilePath), w.show(filepath.Dir(rec.FilePath))
		}
	case "save":
		c := w.h.Contents[o.C]
		n := c.chunkLen(int64(o.Chunk))
		var b []byte
		if n >= 0 {
			b = w.h.chunkOf(o.C, int64(o.Chunk))
		} else {
			b = make([]byte, c.CSize)
		}
		switch o.Data {
		case "other":
			b = append([]byte{}, b...)
			for i := range b {
				b[i] ^= byte(1 + i%7)
			}
		case "short":
			b = b[:len(b)-1]
		case "long":
			b = append(append([]byte{}, b...), 7)
		case "empty":
			b = nil
		}
		e["chunk"], e["len"], e["digest"], e["place"] = o.Chunk, big(int64(len(b))), sum(b), true
		if rec, err := w.look().Contains(hash); err == nil {
			e["place"] = w.place(rec.FilePath)
		}
		errText(e, w.cat.SaveChunk(hash, uint16(o.Chunk), b))
	case "unshare":
		errText(e, w.cat.UnshareFile(hash))
	case "contains":
		rec, err := w.cat.Contains(hash)
		errText(e, err)
		if err == nil {
			e["res"] = w.entry(rec, false)
			if p := guarded(func() { rec = w.cat.Get(hash) }); p == "" {
				e["res"] = w.entry(rec, false)
			}
		}
	case "list":
		e["res"] = w.list(w.cat, false, false)
		e["ok"] = listed(e["res"].([]M))
	case "missing":
		m := []int{}
		for _, r := range w.cat.MissingChunks(hash, math.MaxUint16) {
			m = append(m, int(r.Start), int(r.End))
		}
		e["runs"] = m
	case "complete":
		e["ok"] = w.cat.FileComplete(hash)
	case "rehash":
		cur, err := w.cat.Rehash(hash)
		errText(e, err)
		e["current"] = ""
		if cur != nil {
			e["current"] = cur.String()
		}
	case "reader":
		w.reader(e, hash, o.Chunk)
	case "stored":
		e["entries"] = w.store(o)
		errText(e, w.open())
	case "reopen":
		errText(e, w.open())
	case "moved":
		e["op"] = "reopen"
		dst := w.D + "/moved"
		must(os.RemoveAll(dst))
		must(exec.Command("cp", "-a", w.D+"/cat", dst).Run())
		if w.h.Seed%2 == 0 { // the old place is gone
			must(os.Rename(w.D+"/cat", w.D+"/old"))
		}
		l, ok := w.reopened(dst)
		e["moved"] = l
		e["ok"] = ok
		if w.h.Seed%2 == 0 {
			must(os.RemoveAll(w.D + "/cat"))
			must(os.Rename(dst, w.D+"/cat"))
			must(os.RemoveAll(w.D + "/old"))
			errText(e, w.open())
		}
	case "clean":
		req, resp := &cli.CleanRequest{}, &cli.CleanResponse{}
		errText(e, cli.NewMethods(w.cat, nil).Clean(req, resp))
		items := []M{}
		for _, i := range resp.Items {
			items = append(items, M{"path": w.show(i.FilePath), "indexed": hex.EncodeToString(i.IndexedSha1Hash[:]),
				"current": hex.EncodeToString(i.CurrentSha1Hash[:])})
		}
		e["items"] = items
	case "snapshot":
		s := &snap{}
		var err error
		s.list, err = w.cat.ListFiles()
		works(err)
		s.rec, _ = w.cat.Contains(hash)
		s.first = w.snapText(s)
		w.snaps[o.Chunk] = s
		// the same results once more, changed in every way that they can be
		other, err := w.cat.ListFiles()
		works(err)
		for i := range other {
			scramble(&other[i])
		}
		if rec, err := w.cat.Contains(hash); err == nil {
			scramble(rec)
		}
		for _, m := range [][]common.Range{w.cat.MissingChunks(hash, math.MaxUint16)} {
			for i := range m {
				m[i].Start, m[i].End = 7, 7
			}
		}
		e["op"] = "reread"
		e["first"], e["now"] = s.first, w.snapText(s)
	case "reread":
		s := w.snaps[o.Chunk]
		if s == nil {
			return nil
		}
		e["first"], e["now"] = s.first, w.snapText(s)
	case "outside":
		p := w.abs(o.Path)
		e["path"] = w.show(filepath.Clean(p))
		w.outside(o, p)
	default:
		die("operation %s", o.Op)
	}
	return e
}

func bigU(n uint64) []int64 {
	r := []int64{}
	for ; n > 0; n /= 10000 {
		r = append(r, int64(n%10000))
	}
	return r
}

func (w *catWorld) snapText(s *snap) string {
	l := []string{}
	for i := range s.list {
		b, err := json.Marshal(w.entry(&s.list[i], false))
		must(err)
		l = append(l, string(b)+sum(s.list[i].Progress.Serialize()))
	}
	if s.rec != nil {
		b, err := json.Marshal(w.entry(s.rec, false))
		must(err)
		l = append(l, string(b)+sum(s.rec.Progress.Serialize()))
	}
	return strings.Join(l, "\n")
}

// scramble changes everything about a result
func scramble(r *catalogue.IndexRecordExport) {
	n := r.Progress.Size()
	for i := 0; i < n && i < 300; i++ {
		if r.Progress.Get(uint64(i)) {
			r.Progress.Unset(uint64(i))
		} else {
			r.Progress.Set(uint64(i))
		}
	}
	rs := r.Progress.Ranges()
	for i := range rs {
		rs[i] = 9
	}
	if n%2 == 0 {
		r.Progress.Fill()
	}
	r.FilePath += "x"
	r.SizeInBytes++
	r.ChunkSize++
	for i := range r.Sha1Hash.Data {
		r.Sha1Hash.Data[i] ^= 0xff
	}
}

func (w *catWorld) reader(e M, hash *common.Sha1Hash, chunk int) {
	e["chunk"] = chunk
	e["damaged"] = true
	var path string
	var off, n int64 = 0, -1
	var good []byte
	if w.faulty { // the harness itself had better not touch the file
		good = w.h.chunkOf(w.faultyC, int64(chunk))
	} else if rec, err := w.look().Contains(hash); err == nil {
		path = rec.FilePath
		c := catContent{rec.SizeInBytes, int64(rec.ChunkSize)}
		off, n = int64(chunk)*c.CSize, c.chunkLen(int64(chunk))
		if info, err := os.Stat(path); err == nil && info.Size() <= rec.SizeInBytes && n >= 0 && readAt(path, off, n) != nil {
			e["damaged"] = false
		}
	}
	r, err := w.cat.GetChunkReader(hash, int64(chunk))
	errText(e, err)
	if err == nil {
		var b, buf = []byte{}, make([]byte, 1000)
		for {
			k, at, err := r.Read(buf)
			if k > 0 && int(at) == len(b) {
				b = append(b, buf[:k]...)
			}
			if w.faulty && err != nil && err != io.EOF {
				errText(e, err)
			}
			if err == io.EOF || err != nil || k == 0 {
				break
			}
		}
		e["digest"], e["announced"], e["len"] = sum(b), r.Hash.String(), big(r.Size)
		if !w.faulty {
			good = readAt(path, off, n)
		}
		e["expected"] = sum(good)
	}
}

func (w *catWorld) outside(o catOp, p string) {
	switch o.Kind {
	case "remove":
		must(os.RemoveAll(p))
	case "write":
		must(os.RemoveAll(p))
		must(os.MkdirAll(filepath.Dir(p), 0755))
		must(os.WriteFile(p, w.h.bytesOf(o.C), 0644))
	case "link":
		must(os.RemoveAll(p))
		t := w.D + "/o/" + sum([]byte(p))
		must(os.WriteFile(t, w.h.bytesOf(o.C), 0644))
		must(os.MkdirAll(filepath.Dir(p), 0755))
		must(os.Symlink(t, p))
	case "dir":
		must(os.RemoveAll(p))
		must(os.MkdirAll(p, 0755))
	case "fifo":
		must(os.RemoveAll(p))
		must(os.MkdirAll(filepath.Dir(p), 0755))
		must(syscall.Mkfifo(p, 0644))
	case "flip", "cut", "append":
		info, err := os.Stat(p)
		if err != nil || !info.Mode().IsRegular() {
			return
		}
		b, err := os.ReadFile(p)
		must(err)
		if o.Kind == "flip" && len(b) > 0 {
			b[(o.Chunk+len(b))%len(b)] ^= 0x40
		} else if o.Kind == "cut" && len(b) > 0 {
			b = b[:len(b)-1]
		} else {
			b = append(b, 'x')
		}
		must(os.WriteFile(p, b, 0644))
	}
}

// run executes a history and returns its trace
func (w *catWorld) run() []M {
	trace := []M{}
	works(w.open())
	trace = append(trace, M{"op": "outside", "path": "", "fs": w.files()})
	for i, o := range w.h.Ops {
		var e M
		if p := guarded(func() { e = w.do(o) }); p != "" {
			return append(trace, M{"op": "panic", "in": o, "panic": p, "fs": w.files()})
		}
		if e == nil {
			continue
		}
		if m, ok := e["moved"]; ok {
			delete(e, "moved")
			e["fs"], e["live"], e["disk"] = w.files(), w.list(w.cat, false, true), m
		} else if w.h.Lean && i < len(w.h.Ops)-3 {
			e["fs"] = w.files()
		} else if o.Op == "outside" {
			e["fs"] = w.files()
		} else if w.h.Shy && i < len(w.h.Ops)-2 {
			e["fs"] = w.files()
			e["disk"], _ = w.reopened(w.D + "/cat")
		} else {
			w.observe(e, i%2 == 0 || i == len(w.h.Ops)-1)
		}
		trace = append(trace, e)
	}
	return trace
}

// cat JOB OUT: runs histories
func catCmd(args []string) {
	var job struct {
		Work      string
		Histories []history
	}
	readJSON(args[0], &job)
	traces := make([][]M, len(job.Histories))
	parallel(len(traces), 8, func(i int) {
		d := filepath.Join(job.Work, "h"+itoa(i))
		traces[i] = newWorld(d, &job.Histories[i]).run()
		must(os.RemoveAll(d))
	})
	writeJSON(args[1], traces)
}

// ---------------------------------------------------------------- crashes and failing calls

func marker(s string) { syscall.Access("//FINJ/"+s, 0) }

// catop HISTORY DIR MODE OUT: opens the catalogue in DIR and performs the last operation of the history
// between markers, in which file-system calls may fail or the process may be killed
func catopCmd(args []string) {
	var h history
	readJSON(args[0], &h)
	w := newWorld(args[1], &h)
	o := h.Ops[len(h.Ops)-1]
	if o.Op == "init" {
		marker("start")
		err := w.open()
		marker("stop")
		if args[2] == "fault" {
			if err != nil {
				works(w.open())
			}
			e := M{"op": "reopen", "ok": true}
			writeJSON(args[3], []M{w.observe(e, true)})
		}
		return
	}
	works(w.open())
	// have everything that the markers enclose in memory and done once
	h.hashOf(maxInt(o.C, 0))
	if h.Last == "warm" {
		_, err := w.cat.ListFiles()
		works(err)
	}
	w.faulty, w.faultyC = args[2] == "fault", o.C
	marker("start")
	e := w.do(o)
	marker("stop")
	w.faulty = false
	if args[2] != "fault" {
		return
	}
	f := M{"op": "fault", "inner": e, "fs": w.files()}
	f["live"] = w.list(w.cat, false, true)
	f["disk"], _ = w.reopened(w.D + "/cat")
	trace := []M{f}
	if o.Op == "save" {
		trace = append(trace, w.observe(w.do(catOp{Op: "reader", C: o.C, Chunk: o.Chunk}), true))
	}
	if other := w.otherwise(o, os.Getenv("CATOP_NEXT")); other != nil {
		for _, o := range other {
			e = w.do(o)
			if o.Op == "outside" {
				e["fs"] = w.files()
			} else {
				w.observe(e, true)
			}
			trace = append(trace, e)
		}
		writeJSON(args[3], trace)
		return
	}
	// and again
	e = w.do(o)
	trace = append(trace, w.observe(e, true))
	// and something else
	e = w.do(catOp{Op: "list", C: -1})
	trace = append(trace, w.observe(e, true))
	writeJSON(args[3], trace)
}

// otherwise is what somebody does with a file after an operation on it that did not come to its end, who
// does not simply repeat it
func (w *catWorld) otherwise(o catOp, way string) []catOp {
	c := o.C
	switch o.Op {
	case "share":
		for _, p := range w.h.Ops {
			if p.Op == "outside" && p.Kind == "write" && string(p.Path) == string(o.Path) {
				c = p.C
			}
		}
	case "register", "unshare":
	default:
		return nil
	}
	if c < 0 || w.h.Contents[c].Size > 1<<21 {
		return nil
	}
	end := []catOp{{Op: "complete", C: c}, {Op: "reader", C: c, Chunk: 0}, {Op: "reopen", C: -1}, {Op: "missing", C: c}, {Op: "list", C: -1}}
	switch way {
	case "share":
		return append([]catOp{{Op: "outside", Kind: "write", Path: []byte("s/other"), C: c}, {Op: "share", Path: []byte("s/other"), C: -1}}, end...)
	case "register":
		return append([]catOp{{Op: "register", Name: []byte("other"), C: c}}, end...)
	}
	return nil
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// crash JOB OUT: for each history, performs all operations but the last, and then the last one again and
// again, each time in a copy of the directory, in another process, with something going wrong
func crashCmd(args []string) {
	var job struct {
		Work, Finj string
		Histories  []history
		Modes      []string // kill, after, torn:P, err:E, full:E, short:E
		Every      int      // use every so many-th combination
	}
	readJSON(args[0], &job)
	self, err := os.Executable()
	must(err)
	type res struct {
		trace []M
		hits  int
		calls int
	}
	results := make([][]res, len(job.Histories))
	var lock sync.Mutex
	var hung int32 // how many operations have not come to an end
	for i := range job.Histories {
		h := &job.Histories[i]
		base := filepath.Join(job.Work, "c"+itoa(i))
		d := filepath.Join(base, "w")
		must(os.MkdirAll(d, 0755))
		pre := *h
		last := h.Ops[len(h.Ops)-1]
		pre.Ops = h.Ops[:len(h.Ops)-1]
		hf := filepath.Join(base, "history.json")
		writeJSON(hf, h)
		w := newWorld(d, &pre)
		var prefix []M
		if last.Op == "init" {
			prefix = []M{{"op": "outside", "path": "", "fs": w.files()}}
		} else {
			prefix = w.run()
		}
		must(os.RemoveAll(d))
		one := func(mode string, n int, d string) (r res, calls []string, hit bool) {
			log := d + ".log"
			m, a, _ := strings.Cut(mode, ":")
			if a == "" {
				a = "0"
			}
			kind := "fault"
			if m == "kill" || m == "after" || m == "torn" {
				kind = "crash"
			}
			out := d + ".out"
			cmd := exec.Command(job.Finj, m, itoa(n), a, d, "--", self, "catop", hf, d, kind, out)
			way := []string{"", "share", "register"}[n%3]
			cmd.Env = append(os.Environ(), "FINJ_LOG="+log, "GOMAXPROCS=2", "CATOP_NEXT="+way)
			var eb strings.Builder
			cmd.Stderr = &eb
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			must(cmd.Start())
			var late atomic.Bool
			limit := time.AfterFunc(40*time.Second, func() {
				late.Store(true)
				atomic.AddInt32(&hung, 1)
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			})
			err := cmd.Wait()
			limit.Stop()
			if late.Load() {
				hit = true
				vw := &catWorld{D: d, h: h, snaps: map[int]*snap{}}
				r.trace = append(append([]M{}, prefix...), M{"op": "panic", "in": last, "mode": mode, "call": n,
					"panic": "the operation does not come to an end", "fs": vw.files()})
				return
			}
			b, _ := os.ReadFile(log)
			for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
				if l == "hit" {
					hit = true
				} else if l != "" {
					calls = append(calls, l)
				}
			}
			os.Remove(log)
			if m == "count" {
				if err != nil {
					r.trace = append(append([]M{}, prefix...), M{"op": "panic", "in": last, "mode": mode, "panic": eb.String(), "fs": w.files()})
				}
				return
			}
			if !hit {
				return
			}
			vw := &catWorld{D: d, h: h, snaps: map[int]*snap{}}
			ev := M{"mode": mode, "call": n}
			if n <= len(calls) {
				ev["syscall"] = calls[n-1]
			}
			r.trace = append([]M{}, prefix...)
			if kind == "crash" {
				if err == nil {
					hit = false
					return
				}
				ev["op"] = "crash"
				ev["inner"] = vw.wouldBe(last)
				ev["fs"] = vw.files()
				l, ok := vw.reopened(d + "/cat")
				ev["disk"], ev["opened"] = l, ok
				in := ev["inner"].(M)
				for _, x := range l { // what the interrupted operation did, if it did
					if x["hash"] == in["hash"] && in["op"] == "register" {
						in["path"] = x["path"]
						in["dir"] = "$D/dl"
						in["named"] = []string{}
					}
				}
				r.trace = append(r.trace, ev)
				// life goes on
				if ok {
					works(vw.open())
					next := []catOp{last, {Op: "list", C: -1}}
					if last.Op == "save" {
						r := catOp{Op: "reader", C: last.C, Chunk: last.Chunk}
						next = []catOp{r, last, r, {Op: "list", C: -1}}
					}
					if other := vw.otherwise(last, way); other != nil {
						next = other
					}
					for _, o := range next {
						if o.Op == "init" {
							continue
						}
						var e M
						if p := guarded(func() { e = vw.do(o) }); p != "" {
							r.trace = append(r.trace, M{"op": "panic", "panic": p, "fs": vw.files()})
							return
						}
						if o.Op == "outside" {
							e["fs"] = vw.files()
						} else {
							vw.observe(e, true)
						}
						r.trace = append(r.trace, e)
					}
				}
				return
			}
			if err != nil {
				r.trace = append(r.trace, M{"op": "panic", "in": last, "mode": mode, "call": n, "panic": eb.String(), "fs": vw.files()})
				return
			}
			var more []M
			readJSON(out, &more)
			os.Remove(out)
			for _, e := range more {
				if e["op"] == "fault" {
					e["mode"], e["call"] = mode, n
				}
			}
			r.trace = append(r.trace, more...)
			return
		}
		variant := func(name string, f func(d string)) {
			d := filepath.Join(base, name)
			must(os.MkdirAll(d, 0755))
			vw := newWorld(d, &pre)
			if last.Op != "init" {
				works(vw.open())
				for _, o := range pre.Ops {
					vw.do(o)
				}
			}
			f(d)
			must(os.RemoveAll(d))
		}
		var calls []string
		variant("count", func(d string) {
			r, c, _ := one("count", 0, d)
			calls = c
			if r.trace != nil {
				results[i] = append(results[i], r)
			}
		})
		type combo struct {
			mode string
			n    int
		}
		var combos []combo
		for _, m := range job.Modes {
			for n := range calls {
				f := strings.Fields(calls[n])
				writes := f[3] == "1"
				if (strings.HasPrefix(m, "torn") || strings.HasPrefix(m, "short")) && !writes {
					continue
				}
				if m == "after" && f[2] == "1" || m == "kill" && f[2] == "1" && n > 0 {
					continue // killing between reads changes nothing
				}
				combos = append(combos, combo{m, n + 1})
			}
		}
		if job.Every > 1 {
			var c2 []combo
			for k := range combos {
				if (k+i)%job.Every == 0 {
					c2 = append(c2, combos[k])
				}
			}
			combos = c2
		}
		parallel(len(combos), 8, func(k int) {
			if atomic.LoadInt32(&hung) > 4 {
				return
			}
			variant("v"+itoa(k), func(d string) {
				r, _, hit := one(combos[k].mode, combos[k].n, d)
				if hit {
					r.hits = 1
					r.calls = len(calls)
					lock.Lock()
					results[i] = append(results[i], r)
					lock.Unlock()
				}
			})
		})
		must(os.RemoveAll(base))
	}
	traces, hits, calls := [][]M{}, 0, 0
	for _, rs := range results {
		for _, r := range rs {
			traces = append(traces, r.trace)
			hits += r.hits
		}
		if len(rs) > 0 {
			calls += rs[len(rs)-1].calls
		}
	}
	writeJSON(args[1], M{"traces": traces, "hits": hits, "calls": calls})
}

// wouldBe is an operation as it would be had it succeeded
func (w *catWorld) wouldBe(o catOp) M {
	e := M{"op": o.Op, "ok": true, "named": []string{}}
	if o.C >= 0 && o.Op != "share" {
		e["hash"] = w.h.hashOf(o.C).String()
	}
	switch o.Op {
	case "init":
		e["op"] = "reopen"
	case "share":
		p := filepath.Clean(w.abs(o.Path))
		e["path"] = w.show(p)
		info, err := os.Stat(p)
		must(err)
		e["count"] = (info.Size() + 1<<22 - 1) >> 22
	case "register":
		size, count, csize := w.dims(o)
		e["size"], e["count"], e["csize"] = bigU(size), count, big(int64(csize))
		base, bad := baseName(string(o.Name))
		e["base"], e["badname"] = w.show(w.D+"/dl/"+base), bad
		e["path"], e["dir"] = "", ""
	case "save":
		b := w.h.chunkOf(o.C, int64(o.Chunk))
		e["chunk"], e["len"], e["digest"], e["place"] = o.Chunk, big(int64(len(b))), sum(b), true
	}
	return e
}

// ---------------------------------------------------------------- concurrency

type concJob struct {
	history           // Ops come first, one after the other
	Lanes   [][]catOp // and then these, concurrently
}

// conc JOB OUT: histories of overlapping operations
func concCmd(args []string) {
	var job struct {
		Work      string
		Workers   int
		Histories []concJob
	}
	readJSON(args[0], &job)
	traces := make([]M, len(job.Histories))
	parallel(len(traces), job.Workers, func(i int) {
		j := &job.Histories[i]
		d := filepath.Join(job.Work, "k"+itoa(i))
		w := newWorld(d, &j.history)
		traces[i] = w.overlap(j)
		must(os.RemoveAll(d))
	})
	writeJSON(args[1], traces)
}

func (w *catWorld) sources() []M {
	res := []M{}
	for _, f := range w.files() {
		if strings.HasPrefix(f["path"].(string), "$D/s/") {
			res = append(res, f)
		}
	}
	return res
}

// concurrently is do for an operation that others overlap
func (w *catWorld) concurrently(o catOp) (e M, err error) {
	switch o.Op {
	case "share":
		p := w.abs(o.Path)
		_, err = w.cat.ShareFile(p)
		e = M{"op": "share", "path": w.show(p)}
		info, serr := os.Stat(p)
		must(serr)
		e["count"] = (info.Size() + 1<<22 - 1) >> 22
	case "register":
		size, count, csize := w.dims(o)
		hash := w.h.hashOf(o.C)
		var rec *catalogue.IndexRecordExport
		rec, err = w.cat.RegisterDownload(size, count, csize, hash, string(o.Name))
		e = w.wouldBe(o)
		if err == nil {
			e["res"] = w.entry(rec, false)
			e["path"], e["dir"] = w.show(rec.FilePath), w.show(filepath.Dir(rec.FilePath))
		}
	case "save":
		e = w.wouldBe(o)
		b := w.h.chunkOf(o.C, int64(o.Chunk))
		err = w.cat.SaveChunk(w.h.hashOf(o.C), uint16(o.Chunk), b)
	case "reader":
		e = M{"op": "reader", "hash": w.h.hashOf(o.C).String(), "chunk": o.Chunk, "damaged": false}
		var r *common.ChunkReader
		r, err = w.cat.GetChunkReader(w.h.hashOf(o.C), int64(o.Chunk))
		if err == nil {
			b, rerr := io.ReadAll(&r.Reader)
			if rerr != nil {
				b = nil
			}
			e["digest"], e["expected"], e["announced"], e["len"] = sum(b), sum(b), r.Hash.String(), big(r.Size)
		}
	default:
		return w.do(o), nil
	}
	e["ok"] = err == nil
	return e, err
}

func (w *catWorld) overlap(j *concJob) M {
	works(w.open())
	pre := []M{}
	for _, o := range j.Ops {
		e := w.do(o)
		e["fs"] = w.sources()
		if o.Op != "outside" {
			e["live"] = w.list(w.cat, false, true)
		}
		pre = append(pre, e)
	}
	var lock sync.Mutex
	events := [][]interface{}{}
	recs := []M{}
	errs := []error{}
	log := func(what string, id int) {
		lock.Lock()
		events = append(events, []interface{}{what, id})
		lock.Unlock()
	}
	type slot struct{ lane, k, id int }
	n := 0
	ids := make([][]int, len(j.Lanes))
	for l := range j.Lanes {
		for range j.Lanes[l] {
			n++
			ids[l] = append(ids[l], n)
		}
	}
	recs, errs = make([]M, n), make([]error, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for l := range j.Lanes {
		wg.Add(1)
		go func(l int) {
			defer wg.Done()
			<-start
			for k, o := range j.Lanes[l] {
				id := ids[l][k]
				log("call", id)
				e, err := w.concurrently(o)
				log("ret", id)
				recs[id-1], errs[id-1] = e, err
			}
		}(l)
	}
	close(start)
	wg.Wait()
	end := M{"live": w.list(w.cat, true, true)}
	end["disk"], _ = w.reopened(w.D + "/cat")
	// the paths that errors may name
	paths := map[string]bool{}
	collect := func(e interface{}) {
		if m, ok := e.(M); ok {
			if p, ok := m["path"].(string); ok && p != "" {
				paths[p] = true
			}
		}
	}
	for _, e := range append(append([]M{}, pre...), recs...) {
		collect(e)
		if l, ok := e["res"].([]M); ok {
			for _, x := range l {
				collect(x)
			}
		}
	}
	for i, e := range recs {
		if e["op"] != "share" && e["op"] != "register" {
			continue
		}
		named := []string{}
		if errs[i] != nil {
			t := strings.ReplaceAll(errs[i].Error(), w.D, "$D")
			for p := range paths {
				if strings.Contains(t, p) {
					named = append(named, p)
				}
			}
		}
		e["named"] = named
	}
	return M{"pre": pre, "recs": recs, "ev": events, "end": end}
}
