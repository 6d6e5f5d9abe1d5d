package verifsim

import (
	"fmt"
	"syscall"
	"unsafe"
)

const (
	atFDCWD          = -100
	sysFaccessat2    = 439
	sysRenameat2     = 316
	sysCopyFileRange = 326
	sysStatx         = 332
	sysGetrandom     = 318
	sysOpenat2       = 437
	sysClose_range   = 436
	sysPidfdOpen     = 434
)

func cstr(p uintptr) string {
	if p == 0 {
		return ""
	}
	b := (*[1 << 20]byte)(unsafe.Pointer(p))
	i := 0
	for b[i] != 0 {
		i++
	}
	return string(b[:i])
}

func cbuf(p, n uintptr) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(p)), int(n))
}

type sysres struct {
	r uintptr
	e syscall.Errno
}

func (p *Proc) syscall(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, uintptr, syscall.Errno) {
	r, e := p.sysdo(trap, a1, a2, a3, a4, a5, a6)
	if e != 0 {
		return ^uintptr(0), 0, e
	}
	return r, 0, 0
}

var errnoOf = map[string]syscall.Errno{
	"eio": syscall.EIO, "enospc": syscall.ENOSPC, "erofs": syscall.EROFS, "eacces": syscall.EACCES,
	"eintr": syscall.EINTR, "dead": syscall.EIO, "enoent": syscall.ENOENT,
}

func (p *Proc) at(dirfd int, path string) (string, syscall.Errno) {
	if path == "" {
		return "", syscall.ENOENT
	}
	if path[0] == '/' {
		return cleanDots(path), 0
	}
	if int32(dirfd) == atFDCWD {
		return cleanDots(p.cwd + "/" + path), 0
	}
	fd := p.fds[dirfd]
	if fd == nil {
		return "", syscall.EBADF
	}
	return cleanDots(fd.path + "/" + path), 0
}

// cleanDots removes "." and empty components but keeps "..", which must be
// resolved against the real directories.
func cleanDots(s string) string { return cleanPath("/", s) }

func permOK(n *Inode, want uint32) bool { return n.mode>>6&want == want }

func (p *Proc) sysdo(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, syscall.Errno) {
	fs := p.dev.fs
	w := p.w
	inject := func(op, arg string) syscall.Errno {
		f := p.event(op, arg)
		if f.Kind == "" || f.Kind == "short" {
			return 0
		}
		e := errnoOf[f.Kind]
		if e == 0 {
			harness("fault %s cannot apply to %s", f.Kind, op)
		}
		return e
	}
	switch trap {
	case syscall.SYS_OPEN, syscall.SYS_OPENAT:
		var path string
		var e syscall.Errno
		flags, mode := int(a2), uint32(a3)
		if trap == syscall.SYS_OPEN {
			path, e = p.at(atFDCWD, cstr(a1))
		} else {
			path, e = p.at(int(int32(a1)), cstr(a2))
			flags, mode = int(a3), uint32(a4)
		}
		if e != 0 {
			return 0, e
		}
		acc := flags & syscall.O_ACCMODE
		dir, name, n, e := fs.walk(path, flags&syscall.O_NOFOLLOW == 0 && !(flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0), 0)
		op := "open"
		if e == 0 && n == nil && flags&syscall.O_CREAT != 0 {
			op = "create"
		} else if acc != syscall.O_RDONLY {
			op = "openw"
		}
		if fe := inject(op, path); fe != 0 {
			return 0, fe
		}
		// another process may have run meanwhile
		dir, name, n, e = fs.walk(path, flags&syscall.O_NOFOLLOW == 0 && !(flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0), 0)
		if e != 0 {
			return 0, e
		}
		if n == nil {
			if flags&syscall.O_CREAT == 0 {
				return 0, syscall.ENOENT
			}
			if !permOK(dir, 2) {
				return 0, syscall.EACCES
			}
			n = dir.fs.newInode(syscall.S_IFREG | mode&0777&^p.umask)
			dir.fs.log(dir.fs.link(dir, name, n))
		} else {
			if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
				return 0, syscall.EEXIST
			}
			if n.isLink() {
				return 0, syscall.ELOOP
			}
			if n.isDir() && acc != syscall.O_RDONLY {
				return 0, syscall.EISDIR
			}
			if flags&syscall.O_DIRECTORY != 0 && !n.isDir() {
				return 0, syscall.ENOTDIR
			}
			if acc != syscall.O_WRONLY && !permOK(n, 4) || acc != syscall.O_RDONLY && !permOK(n, 2) {
				return 0, syscall.EACCES
			}
			if flags&syscall.O_TRUNC != 0 && !n.isDir() && acc != syscall.O_RDONLY {
				n.truncate(0)
				if w.hooks.onWrite != nil {
					w.hooks.onWrite(p, n)
				}
			}
		}
		p.nextFD++
		p.fds[p.nextFD] = &FD{n: n, flag: flags, path: path}
		return uintptr(p.nextFD), 0

	case syscall.SYS_CLOSE:
		fd := p.fds[int(a1)]
		if fd == nil {
			if int(a1) <= 2 {
				return 0, 0
			}
			return 0, syscall.EBADF
		}
		fe := inject("close", fd.path)
		delete(p.fds, int(a1))
		if fe == syscall.EINTR {
			fe = 0 // Linux closes the descriptor regardless
		}
		return 0, fe

	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		if a1 == 1 || a1 == 2 {
			if !p.dead {
				p.out.Write(cbuf(a2, a3))
				if p.out.Len() > 8<<20 {
					p.stop("unbounded output")
				}
			}
			return a3, 0
		}
		fd := p.fds[int(a1)]
		if fd == nil || fd.flag&syscall.O_ACCMODE == syscall.O_RDONLY {
			return 0, syscall.EBADF
		}
		b := cbuf(a2, a3)
		f := p.event("write", fmt.Sprintf("%s %d", fd.path, len(b)))
		if f.Kind != "" && f.Kind != "short" {
			if f.Kind == "enospc" && f.N > 0 && len(b) > 1 {
				// the disk fills up inside this write: a first part fits
				k := 1 + int(hash2(w.seed, w.events)%uint64(len(b)-1))
				b = b[:k]
				p.sticky["enospc"] = Fault{Kind: "enospc", Stay: true}
			} else {
				return 0, errnoOf[f.Kind]
			}
		}
		if f.Kind == "short" && len(b) > 1 {
			b = b[:1+int(hash2(w.seed, w.events)%uint64(len(b)-1))]
		}
		off := fd.pos
		if trap == syscall.SYS_PWRITE64 {
			off = int64(a4)
		} else if fd.flag&syscall.O_APPEND != 0 {
			off = int64(len(fd.n.data))
		}
		fd.n.writeAt(off, b)
		if trap == syscall.SYS_WRITE {
			fd.pos = off + int64(len(b))
		}
		if w.hooks.onWrite != nil {
			w.hooks.onWrite(p, fd.n)
		}
		return uintptr(len(b)), 0

	case syscall.SYS_READ, syscall.SYS_PREAD64:
		if a1 == 0 {
			return 0, 0
		}
		fd := p.fds[int(a1)]
		if fd == nil || fd.flag&syscall.O_ACCMODE == syscall.O_WRONLY {
			return 0, syscall.EBADF
		}
		if fd.n.isDir() {
			return 0, syscall.EISDIR
		}
		b := cbuf(a2, a3)
		f := p.event("read", fd.path)
		if f.Kind != "" && f.Kind != "short" {
			return 0, errnoOf[f.Kind]
		}
		off := fd.pos
		if trap == syscall.SYS_PREAD64 {
			off = int64(a4)
		}
		if off >= int64(len(fd.n.data)) {
			return 0, 0
		}
		n := len(fd.n.data) - int(off)
		if n > len(b) {
			n = len(b)
		}
		if f.Kind == "short" && n > 1 {
			n = 1 + int(hash2(w.seed, w.events)%uint64(n-1))
		}
		copy(b[:n], fd.n.data[off:])
		if trap == syscall.SYS_READ {
			fd.pos += int64(n)
		}
		return uintptr(n), 0

	case syscall.SYS_LSEEK:
		fd := p.fds[int(a1)]
		if fd == nil {
			return 0, syscall.EBADF
		}
		var base int64
		switch a3 {
		case 1:
			base = fd.pos
		case 2:
			base = int64(len(fd.n.data))
		}
		np := base + int64(a2)
		if np < 0 {
			return 0, syscall.EINVAL
		}
		fd.pos = np
		fd.dirk = nil
		return uintptr(np), 0

	case syscall.SYS_FSTAT:
		if a1 <= 2 {
			st := (*syscall.Stat_t)(unsafe.Pointer(a2))
			*st = syscall.Stat_t{Mode: syscall.S_IFCHR | 0620}
			return 0, 0
		}
		fd := p.fds[int(a1)]
		if fd == nil {
			return 0, syscall.EBADF
		}
		fillStat((*syscall.Stat_t)(unsafe.Pointer(a2)), fd.n)
		return 0, 0

	case syscall.SYS_STAT, syscall.SYS_LSTAT, syscall.SYS_NEWFSTATAT:
		var path string
		var e syscall.Errno
		st := a2
		follow := trap == syscall.SYS_STAT
		if trap == syscall.SYS_NEWFSTATAT {
			s := cstr(a2)
			if s == "" && a4&0x1000 != 0 { // AT_EMPTY_PATH
				return p.sysdo(syscall.SYS_FSTAT, a1, a3, 0, 0, 0, 0)
			}
			path, e = p.at(int(int32(a1)), s)
			st = a3
			follow = a4&0x100 == 0
		} else {
			path, e = p.at(atFDCWD, cstr(a1))
		}
		if e != 0 {
			return 0, e
		}
		if fe := inject("stat", path); fe != 0 {
			return 0, fe
		}
		_, _, n, e := fs.walk(path, follow, 0)
		if e != 0 {
			return 0, e
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		fillStat((*syscall.Stat_t)(unsafe.Pointer(st)), n)
		return 0, 0

	case sysStatx:
		return 0, syscall.ENOSYS

	case syscall.SYS_ACCESS, syscall.SYS_FACCESSAT, sysFaccessat2:
		path, e := "", syscall.Errno(0)
		mode := a3
		if trap == syscall.SYS_ACCESS {
			path, e = p.at(atFDCWD, cstr(a1))
			mode = a2
		} else {
			path, e = p.at(int(int32(a1)), cstr(a2))
		}
		if e != 0 {
			return 0, e
		}
		_, _, n, e := fs.walk(path, true, 0)
		if e != 0 {
			return 0, e
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		if !permOK(n, uint32(mode)) {
			return 0, syscall.EACCES
		}
		return 0, 0

	case syscall.SYS_UNLINK, syscall.SYS_UNLINKAT, syscall.SYS_RMDIR:
		path, e := "", syscall.Errno(0)
		rmdir := trap == syscall.SYS_RMDIR
		if trap == syscall.SYS_UNLINKAT {
			path, e = p.at(int(int32(a1)), cstr(a2))
			rmdir = a3&0x200 != 0
		} else {
			path, e = p.at(atFDCWD, cstr(a1))
		}
		if e != 0 {
			return 0, e
		}
		if fe := inject("unlink", path); fe != 0 {
			return 0, fe
		}
		dir, name, n, e := fs.walk(path, false, 0)
		if e != 0 {
			return 0, e
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		if n.isDir() != rmdir {
			if rmdir {
				return 0, syscall.ENOTDIR
			}
			return 0, syscall.EISDIR
		}
		if rmdir && len(n.ents) > 0 {
			return 0, syscall.ENOTEMPTY
		}
		if !permOK(dir, 2) {
			return 0, syscall.EACCES
		}
		if w.hooks.onUnlink != nil && !rmdir {
			w.hooks.onUnlink(p, n, path)
		}
		dir.fs.log(dir.fs.link(dir, name, nil))
		n.nlink--
		return 0, 0

	case syscall.SYS_RENAME, syscall.SYS_RENAMEAT, sysRenameat2:
		var from, to string
		var e, e2 syscall.Errno
		if trap == syscall.SYS_RENAME {
			from, e = p.at(atFDCWD, cstr(a1))
			to, e2 = p.at(atFDCWD, cstr(a2))
		} else {
			from, e = p.at(int(int32(a1)), cstr(a2))
			to, e2 = p.at(int(int32(a3)), cstr(a4))
		}
		if e != 0 {
			return 0, e
		}
		if e2 != 0 {
			return 0, e2
		}
		if fe := inject("rename", from+" "+to); fe != 0 {
			return 0, fe
		}
		fd, fn, f, e := fs.walk(from, false, 0)
		if e != 0 {
			return 0, e
		}
		if f == nil {
			return 0, syscall.ENOENT
		}
		td, tn, t, e := fs.walk(to, false, 0)
		if e != 0 {
			return 0, e
		}
		if fd.fs != td.fs {
			return 0, syscall.EXDEV
		}
		if t != nil && trap == sysRenameat2 && a5&1 != 0 {
			return 0, syscall.EEXIST
		}
		if t != nil && t.isDir() != f.isDir() {
			if t.isDir() {
				return 0, syscall.EISDIR
			}
			return 0, syscall.ENOTDIR
		}
		if !permOK(fd, 2) || !permOK(td, 2) {
			return 0, syscall.EACCES
		}
		if f == t {
			return 0, 0
		}
		op := td.fs.link(td, tn, f)
		op.next = fd.fs.link(fd, fn, nil)
		// for the undo: the source name pointed at f
		op.next.from = f
		td.fs.log(op)
		if w.hooks.onWrite != nil {
			w.hooks.onWrite(p, f)
		}
		return 0, 0

	case syscall.SYS_LINK, syscall.SYS_LINKAT:
		var from, to string
		var e, e2 syscall.Errno
		if trap == syscall.SYS_LINK {
			from, e = p.at(atFDCWD, cstr(a1))
			to, e2 = p.at(atFDCWD, cstr(a2))
		} else {
			from, e = p.at(int(int32(a1)), cstr(a2))
			to, e2 = p.at(int(int32(a3)), cstr(a4))
		}
		if e != 0 || e2 != 0 {
			return 0, syscall.ENOENT
		}
		if fe := inject("create", to); fe != 0 {
			return 0, fe
		}
		_, _, f, e := fs.walk(from, false, 0)
		if e != 0 || f == nil {
			return 0, syscall.ENOENT
		}
		td, tn, t, e := fs.walk(to, false, 0)
		if e != 0 {
			return 0, e
		}
		if t != nil {
			return 0, syscall.EEXIST
		}
		td.fs.log(td.fs.link(td, tn, f))
		f.nlink++
		return 0, 0

	case syscall.SYS_SYMLINK, syscall.SYS_SYMLINKAT:
		target := cstr(a1)
		var to string
		var e syscall.Errno
		if trap == syscall.SYS_SYMLINK {
			to, e = p.at(atFDCWD, cstr(a2))
		} else {
			to, e = p.at(int(int32(a2)), cstr(a3))
		}
		if e != 0 {
			return 0, e
		}
		if fe := inject("create", to); fe != 0 {
			return 0, fe
		}
		td, tn, t, e := fs.walk(to, false, 0)
		if e != 0 {
			return 0, e
		}
		if t != nil {
			return 0, syscall.EEXIST
		}
		n := td.fs.newInode(syscall.S_IFLNK | 0777)
		n.link = target
		td.fs.log(td.fs.link(td, tn, n))
		return 0, 0

	case syscall.SYS_READLINK, syscall.SYS_READLINKAT:
		var path string
		var e syscall.Errno
		buf, sz := a2, a3
		if trap == syscall.SYS_READLINKAT {
			path, e = p.at(int(int32(a1)), cstr(a2))
			buf, sz = a3, a4
		} else {
			path, e = p.at(atFDCWD, cstr(a1))
		}
		if e != 0 {
			return 0, e
		}
		_, _, n, e := fs.walk(path, false, 0)
		if e != 0 {
			return 0, e
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		if !n.isLink() {
			return 0, syscall.EINVAL
		}
		return uintptr(copy(cbuf(buf, sz), n.link)), 0

	case syscall.SYS_MKDIR, syscall.SYS_MKDIRAT:
		var path string
		var e syscall.Errno
		mode := uint32(a2)
		if trap == syscall.SYS_MKDIRAT {
			path, e = p.at(int(int32(a1)), cstr(a2))
			mode = uint32(a3)
		} else {
			path, e = p.at(atFDCWD, cstr(a1))
		}
		if e != 0 {
			return 0, e
		}
		if fe := inject("mkdir", path); fe != 0 {
			return 0, fe
		}
		dir, name, n, e := fs.walk(path, false, 0)
		if e != 0 {
			return 0, e
		}
		if n != nil {
			return 0, syscall.EEXIST
		}
		dir.fs.log(dir.fs.link(dir, name, dir.fs.newInode(syscall.S_IFDIR|mode&0777&^p.umask)))
		return 0, 0

	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		fd := p.fds[int(a1)]
		if fd == nil {
			return 0, syscall.EBADF
		}
		if fe := inject("fsync", fd.path); fe != 0 {
			// bpass saves on where directories cannot be synced, by design;
			// what it saved is then not at stake
			if fd.n.isDir() {
				fd.n.fs.syncDir(fd.n)
			}
			return 0, fe
		}
		if fd.n.isDir() {
			fd.n.fs.syncDir(fd.n)
		} else {
			fd.n.sync()
		}
		return 0, 0

	case syscall.SYS_SYNC, 306:
		if fe := inject("fsync", "all"); fe != 0 {
			return 0, fe
		}
		fs.settle()
		return 0, 0

	case syscall.SYS_TRUNCATE, syscall.SYS_FTRUNCATE:
		var n *Inode
		path := ""
		if trap == syscall.SYS_TRUNCATE {
			pp, e := p.at(atFDCWD, cstr(a1))
			if e != 0 {
				return 0, e
			}
			path = pp
		} else if fd := p.fds[int(a1)]; fd != nil {
			n, path = fd.n, fd.path
		} else {
			return 0, syscall.EBADF
		}
		if fe := inject("truncate", path); fe != 0 {
			return 0, fe
		}
		if n == nil {
			var e syscall.Errno
			if _, _, n, e = fs.walk(path, true, 0); e != 0 {
				return 0, e
			}
			if n == nil {
				return 0, syscall.ENOENT
			}
		}
		if int64(a2) < 0 || n.isDir() {
			return 0, syscall.EINVAL
		}
		n.truncate(int64(a2))
		if w.hooks.onWrite != nil {
			w.hooks.onWrite(p, n)
		}
		return 0, 0

	case syscall.SYS_CHMOD, syscall.SYS_FCHMOD, syscall.SYS_FCHMODAT, 452:
		var n *Inode
		mode := uint32(a2)
		switch trap {
		case syscall.SYS_FCHMOD:
			fd := p.fds[int(a1)]
			if fd == nil {
				return 0, syscall.EBADF
			}
			if fe := inject("chmod", fd.path); fe != 0 {
				return 0, fe
			}
			n = fd.n
		default:
			dirfd, pp := atFDCWD, a1
			if trap != syscall.SYS_CHMOD {
				dirfd, pp, mode = int(int32(a1)), a2, uint32(a3)
			}
			path, e := p.at(dirfd, cstr(pp))
			if e != 0 {
				return 0, e
			}
			if fe := inject("chmod", path); fe != 0 {
				return 0, fe
			}
			if _, _, n, e = fs.walk(path, true, 0); e != 0 {
				return 0, e
			}
			if n == nil {
				return 0, syscall.ENOENT
			}
		}
		n.mode = n.mode&syscall.S_IFMT | mode&07777
		return 0, 0

	case syscall.SYS_CHOWN, syscall.SYS_FCHOWN, syscall.SYS_LCHOWN, syscall.SYS_FCHOWNAT, syscall.SYS_UTIMENSAT:
		return 0, 0

	case syscall.SYS_GETDENTS64:
		fd := p.fds[int(a1)]
		if fd == nil {
			return 0, syscall.EBADF
		}
		if !fd.n.isDir() {
			return 0, syscall.ENOTDIR
		}
		if fe := inject("getdents", fd.path); fe != 0 {
			return 0, fe
		}
		if fd.dirk == nil {
			fd.dirk = append([]string{".", ".."}, sortedKeys(fd.n.ents)...)
			// real directories list in no particular order
			r := NewRand(hash2(w.seed, uint64(fd.n.id)+77))
			for i := len(fd.dirk) - 1; i > 0; i-- {
				j := r.N(i + 1)
				fd.dirk[i], fd.dirk[j] = fd.dirk[j], fd.dirk[i]
			}
			fd.dpos = 0
		}
		buf := cbuf(a2, a3)
		off := 0
		for fd.dpos < len(fd.dirk) {
			name := fd.dirk[fd.dpos]
			rec := (19 + len(name) + 1 + 7) &^ 7
			if off+rec > len(buf) {
				break
			}
			c := fd.n.ents[name]
			typ := byte(syscall.DT_DIR)
			ino := 1
			if c != nil {
				ino = c.id
				switch {
				case c.isLink():
					typ = syscall.DT_LNK
				case !c.isDir():
					typ = syscall.DT_REG
				}
			}
			e := (*syscall.Dirent)(unsafe.Pointer(&buf[off]))
			e.Ino = uint64(ino)
			e.Off = int64(fd.dpos)
			e.Reclen = uint16(rec)
			e.Type = typ
			for i := 0; i <= len(name); i++ {
				v := byte(0)
				if i < len(name) {
					v = name[i]
				}
				buf[off+19+i] = v
			}
			off += rec
			fd.dpos++
		}
		return uintptr(off), 0

	case syscall.SYS_GETCWD:
		b := cbuf(a1, a2)
		n := copy(b, p.cwd+"\x00")
		return uintptr(n), 0

	case syscall.SYS_CHDIR:
		path, e := p.at(atFDCWD, cstr(a1))
		if e != 0 {
			return 0, e
		}
		_, _, n, e := fs.walk(path, true, 0)
		if e != 0 {
			return 0, e
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		p.cwd = path
		return 0, 0

	case syscall.SYS_FCNTL:
		// descriptors stay out of the runtime's network poller
		return 0, syscall.EINVAL
	case syscall.SYS_FLOCK:
		return 0, 0
	case syscall.SYS_IOCTL:
		return 0, syscall.ENOTTY
	case syscall.SYS_FALLOCATE:
		return 0, syscall.EOPNOTSUPP
	case sysCopyFileRange, syscall.SYS_SENDFILE, syscall.SYS_SPLICE, sysOpenat2, sysPidfdOpen, sysClose_range:
		return 0, syscall.ENOSYS
	case syscall.SYS_UMASK:
		old := p.umask
		p.umask = uint32(a1)
		return uintptr(old), 0
	case syscall.SYS_GETUID, syscall.SYS_GETEUID, syscall.SYS_GETGID, syscall.SYS_GETEGID:
		return 1000, 0
	case syscall.SYS_GETPID:
		return uintptr(4000 + p.id), 0
	case syscall.SYS_UNAME, syscall.SYS_GETPPID:
		return 0, syscall.ENOSYS
	case syscall.SYS_KILL, syscall.SYS_TGKILL:
		return 0, syscall.EPERM
	}
	harness("unmodelled system call %d(%#x,%#x,%#x)", trap, a1, a2, a3)
	return 0, syscall.ENOSYS
}

func fillStat(st *syscall.Stat_t, n *Inode) {
	*st = syscall.Stat_t{
		Dev: 1, Ino: uint64(n.id), Nlink: uint64(n.nlink), Mode: n.mode, Uid: 1000, Gid: 1000,
		Size: int64(len(n.data)), Blksize: 4096, Blocks: int64(len(n.data)+511) / 512,
	}
	if n.isLink() {
		st.Size = int64(len(n.link))
	}
	st.Mtim = syscall.Timespec{Sec: n.mtime / 1e9, Nsec: n.mtime % 1e9}
	st.Atim, st.Ctim = st.Mtim, st.Mtim
}
