package verifsim

import (
	"fmt"
	"sort"
	"strings"
	"syscall"
)

// Inode is a file, directory or symlink of the simulated file system. data is
// what a reader sees now (page cache); durable plus a prefix of pending is what
// can be there after a power failure.
type Inode struct {
	id      int
	mode    uint32 // S_IFMT | permissions
	data    []byte
	durable []byte
	pending []writeOp
	ents    map[string]*Inode
	link    string
	mtime   int64
	nlink   int
	fs      *FS
}

type writeOp struct {
	trunc bool
	off   int64
	data  []byte
}

// metaOp is an entry of the directory-operation journal.
type metaOp struct {
	dir  *Inode
	name string
	from *Inode // previous target (may be nil)
	to   *Inode // new target (nil for removal)
	// rename couples two directory changes
	next *metaOp
}

// FS is one simulated file system.
type FS struct {
	name    string
	root    *Inode
	nextID  int
	journal []*metaOp // not yet durable
	mounts  map[string]*FS
	now     func() int64
}

func newFS(name string) *FS {
	fs := &FS{name: name, mounts: map[string]*FS{}, now: func() int64 { return 0 }}
	fs.root = fs.newInode(syscall.S_IFDIR | 0755)
	return fs
}

func (fs *FS) newInode(mode uint32) *Inode {
	fs.nextID++
	n := &Inode{id: fs.nextID, mode: mode, nlink: 1, fs: fs, mtime: fs.now()}
	if mode&syscall.S_IFMT == syscall.S_IFDIR {
		n.ents = map[string]*Inode{}
	}
	return n
}

func (n *Inode) isDir() bool  { return n.mode&syscall.S_IFMT == syscall.S_IFDIR }
func (n *Inode) isLink() bool { return n.mode&syscall.S_IFMT == syscall.S_IFLNK }

func cleanPath(cwd, p string) string {
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	var out []string
	for _, c := range strings.Split(p, "/") {
		if c == "" || c == "." {
			continue
		}
		out = append(out, c)
	}
	return "/" + strings.Join(out, "/")
}

// walk resolves path. With wantParent it returns the parent directory and the
// final name (the final component unresolved unless follow is set and it is a
// symlink).
func (fs *FS) walk(path string, follow bool, depth int) (dir *Inode, name string, n *Inode, err syscall.Errno) {
	if depth > 20 {
		return nil, "", nil, syscall.ELOOP
	}
	comps := strings.Split(strings.Trim(path, "/"), "/")
	cur := fs.root
	stack := []*Inode{}
	abs := ""
	if path == "/" || path == "" {
		return cur, ".", cur, 0
	}
	for i, c := range comps {
		last := i == len(comps)-1
		if !cur.isDir() {
			return nil, "", nil, syscall.ENOTDIR
		}
		if c == ".." {
			if len(stack) > 0 {
				cur = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				abs = abs[:strings.LastIndex(abs, "/")]
			}
			if last {
				return cur, ".", cur, 0
			}
			continue
		}
		nabs := abs + "/" + c
		if m, ok := fs.mounts[nabs]; ok {
			if last {
				return m.root, ".", m.root, 0
			}
			return m.walk("/"+strings.Join(comps[i+1:], "/"), follow, depth)
		}
		child := cur.ents[c]
		if child == nil {
			if last {
				return cur, c, nil, 0
			}
			return nil, "", nil, syscall.ENOENT
		}
		if child.isLink() && (!last || follow) {
			rest := strings.Join(comps[i+1:], "/")
			t := child.link
			if !strings.HasPrefix(t, "/") {
				t = abs + "/" + t
			}
			t = cleanPath("/", t)
			if rest != "" {
				t += "/" + rest
			}
			return fs.walk(t, follow, depth+1)
		}
		if last {
			return cur, c, child, 0
		}
		stack = append(stack, cur)
		abs = nabs
		cur = child
	}
	return nil, "", nil, syscall.ENOENT
}

func (fs *FS) link(dir *Inode, name string, to *Inode) *metaOp {
	op := &metaOp{dir: dir, name: name, from: dir.ents[name], to: to}
	if to == nil {
		delete(dir.ents, name)
	} else {
		dir.ents[name] = to
	}
	dir.mtime = dir.fs.now()
	return op
}

func (fs *FS) log(op *metaOp) { fs.journal = append(fs.journal, op) }

// write applies a write to an inode's visible content.
func (n *Inode) writeAt(off int64, b []byte) {
	n.pending = append(n.pending, writeOp{off: off, data: append([]byte(nil), b...)})
	n.data = applyWrite(n.data, off, b)
	n.mtime = n.fs.now()
}

func applyWrite(d []byte, off int64, b []byte) []byte {
	end := off + int64(len(b))
	if int64(len(d)) < end {
		nd := make([]byte, end)
		copy(nd, d)
		d = nd
	} else {
		d = append([]byte(nil), d...)
	}
	copy(d[off:], b)
	return d
}

func applyTrunc(d []byte, n int64) []byte {
	nd := make([]byte, n)
	copy(nd, d)
	return nd
}

func (n *Inode) truncate(size int64) {
	n.pending = append(n.pending, writeOp{trunc: true, off: size})
	n.data = applyTrunc(n.data, size)
	n.mtime = n.fs.now()
}

func (n *Inode) sync() {
	n.durable = n.data
	n.pending = nil
}

// syncDir makes every directory change of dir, and what precedes it in the
// journal, durable.
func (fs *FS) syncDir(dir *Inode) {
	last := -1
	for i, op := range fs.journal {
		for o := op; o != nil; o = o.next {
			if o.dir == dir {
				last = i
			}
		}
	}
	fs.journal = append([]*metaOp(nil), fs.journal[last+1:]...)
}

// settle makes everything durable (a clean shutdown or long idle time).
func (fs *FS) settle() {
	fs.journal = nil
	seen := map[*Inode]bool{}
	var rec func(n *Inode)
	rec = func(n *Inode) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		if n.isDir() {
			for _, c := range n.ents {
				rec(c)
			}
			return
		}
		n.sync()
	}
	rec(fs.root)
}

// powerLoss reverts what was not durable: a suffix of the directory journal
// is undone and every file keeps only a prefix of its unsynced writes, the last
// of them possibly torn; blocks may also be lost as zeroes.
func (fs *FS) powerLoss(r *Rand) string {
	keep := r.N(len(fs.journal) + 1)
	lost := len(fs.journal) - keep
	for i := len(fs.journal) - 1; i >= keep; i-- {
		// undo in reverse, including coupled changes
		var chain []*metaOp
		for o := fs.journal[i]; o != nil; o = o.next {
			chain = append(chain, o)
		}
		for j := len(chain) - 1; j >= 0; j-- {
			o := chain[j]
			if o.from == nil {
				delete(o.dir.ents, o.name)
			} else {
				o.dir.ents[o.name] = o.from
			}
		}
	}
	fs.journal = nil
	torn := 0
	// deterministic order: by inode id
	var all []*Inode
	seen := map[*Inode]bool{}
	var rec func(n *Inode)
	rec = func(n *Inode) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		all = append(all, n)
		for _, k := range sortedKeys(n.ents) {
			rec(n.ents[k])
		}
	}
	rec(fs.root)
	sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
	for _, n := range all {
		if n.isDir() || len(n.pending) == 0 {
			continue
		}
		k := r.N(len(n.pending) + 1)
		d := n.durable
		mode := r.N(3)
		for i := 0; i < k; i++ {
			op := n.pending[i]
			if op.trunc {
				d = applyTrunc(d, op.off)
				continue
			}
			b := op.data
			if i == k-1 {
				switch mode {
				case 1: // torn: a prefix of the last write
					b = b[:r.N(len(b)+1)]
					torn++
				case 2: // length updated, data blocks not: zeroes
					b = append([]byte(nil), b...)
					from := r.N(len(b) + 1)
					for j := from; j < len(b); j++ {
						b[j] = 0
					}
					torn++
				}
			}
			d = applyWrite(d, op.off, b)
		}
		n.data, n.durable, n.pending = d, d, nil
	}
	return fmt.Sprintf("lost %d of %d directory ops, %d torn files", lost, lost+keep, torn)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- direct access for the harness

func (fs *FS) mkdirAll(path string) *Inode {
	cur := fs.root
	for _, c := range strings.Split(strings.Trim(path, "/"), "/") {
		if c == "" {
			continue
		}
		n := cur.ents[c]
		if n == nil {
			n = fs.newInode(syscall.S_IFDIR | 0755)
			cur.ents[c] = n
		}
		cur = n
	}
	return cur
}

func splitPath(p string) (string, string) {
	i := strings.LastIndex(p, "/")
	return p[:i], p[i+1:]
}

// put creates a durable file.
func (fs *FS) put(path string, data []byte, perm uint32) *Inode {
	d, name := splitPath(path)
	dir := fs.mkdirAll(d)
	n := fs.newInode(syscall.S_IFREG | perm)
	n.data = append([]byte(nil), data...)
	n.durable = n.data
	dir.ents[name] = n
	return n
}

func (fs *FS) symlink(path, target string) {
	d, name := splitPath(path)
	dir := fs.mkdirAll(d)
	n := fs.newInode(syscall.S_IFLNK | 0777)
	n.link = target
	dir.ents[name] = n
}

func (fs *FS) get(path string) *Inode {
	_, _, n, err := fs.walk(path, true, 0)
	if err != 0 {
		return nil
	}
	return n
}

func (fs *FS) read(path string) ([]byte, bool) {
	n := fs.get(path)
	if n == nil || n.isDir() {
		return nil, false
	}
	return n.data, true
}

func (fs *FS) remove(path string) {
	d, name := splitPath(path)
	if dir := fs.get(d); dir != nil {
		delete(dir.ents, name)
	}
}

// files calls f for every regular file reachable by name, in path order.
func (fs *FS) files(f func(path string, n *Inode)) {
	var rec func(p string, n *Inode)
	rec = func(p string, n *Inode) {
		for _, k := range sortedKeys(n.ents) {
			c := n.ents[k]
			switch {
			case c.isDir():
				rec(p+"/"+k, c)
			case c.isLink():
			default:
				f(p+"/"+k, c)
			}
		}
	}
	rec("", fs.root)
}
