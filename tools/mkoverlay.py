#!/usr/bin/env python3
"""Generate the build overlay that puts every source of nondeterminism of the
bpass program behind the simulator.

usage: mkoverlay.py OUTDIR REPO VERIF

Nothing is written outside OUTDIR.  Every patched file is derived from the
installed file by exact string anchors; a missing anchor is a hard error (the
check then ends in an error exit, never in a verdict).
"""
import json, os, subprocess, sys, glob, re, shutil

out, repo, verif = sys.argv[1:4]
env = dict(os.environ)
goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True, cwd=repo).strip()
src = os.path.join(goroot, "src")
replace = {}
os.makedirs(out, exist_ok=True)
n = 0


def die(msg):
    sys.stderr.write("mkoverlay: " + msg + "\n")
    sys.exit(3)


def emit(target, text):
    global n
    n += 1
    p = os.path.join(out, "%03d_%s" % (n, os.path.basename(target)))
    with open(p, "w") as f:
        f.write(text)
    replace[target] = p


def patch(target, *subs):
    if target in replace:
        text = open(replace[target]).read()
    else:
        text = open(target).read()
    for old, new in subs:
        if text.count(old) < 1:
            die("anchor not found in %s: %r" % (target, old))
        text = text.replace(old, new, 1)
    emit(target, text)


def std(rel):
    return os.path.join(src, rel)


# ---------------------------------------------------------------- runtime
emit(std("runtime/zz_sim.go"), '''package runtime

import "unsafe"

// SimRand is the state of the pseudo random stream that replaces rand() (map
// seeds, map iteration order, os temp names) on labelled goroutines.
var SimRand uint64

//go:nosplit
func simRand() uint64 {
	SimRand += 0x9e3779b97f4a7c15
	z := SimRand
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SimLabel identifies the simulated process the goroutine belongs to.
func SimLabel() unsafe.Pointer { return getg().labels }

// SimSetLabel adopts a label previously obtained with SimLabel.
func SimSetLabel(p unsafe.Pointer) { getg().labels = p }
''')
patch(std("runtime/rand.go"),
      ("func rand() uint64 {\n", "func rand() uint64 {\n\tif getg().labels != nil {\n\t\treturn simRand()\n\t}\n"))
patch(std("internal/runtime/maps/runtime_alg.go"),
      ("hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(0x9e3779b97f4a7c15 * uint64(2*i+1))"),
      ("	// Install AES hash algorithms if the instructions needed are present.\n",
       "	if true {\n\t\treturn\n\t}\n"))

# ---------------------------------------------------------------- syscall
emit(std("syscall/zz_sim.go"), '''package syscall

import (
	"runtime"
	"unsafe"
)

// Hooks installed by the simulator. They are consulted only on goroutines
// that carry a simulator label.
var (
	SimSyscall func(label unsafe.Pointer, trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno)
	SimGetenv  func(label unsafe.Pointer, key string) (string, bool)
	SimEnviron func(label unsafe.Pointer) []string
	SimGetpid  func(label unsafe.Pointer) int
	SimStart   func(label unsafe.Pointer, argv0 string, argv []string, attr *ProcAttr) (pid int, err error)
)

func simOn() unsafe.Pointer {
	if SimSyscall == nil {
		return nil
	}
	return runtime.SimLabel()
}
''')
text = open(std("syscall/syscall_linux.go")).read()
for name, nargs in (("RawSyscall6", 6), ("Syscall6", 6), ("RawSyscall", 3), ("Syscall", 3)):
    m = re.search(r"((?://go:[^\n]*\n)+)(func %s\(trap, [^\n]*\{\n)" % name, text)
    if not m:
        die("syscall %s not found" % name)
    args = "a1, a2, a3, a4, a5, a6" if nargs == 6 else "a1, a2, a3, 0, 0, 0"
    hook = ("\tif l := simOn(); l != nil {\n\t\treturn SimSyscall(l, trap, %s)\n\t}\n" % args)
    real = ("\treturn real%s(trap, %s)\n}\n\n" % (name, "a1, a2, a3, a4, a5, a6" if nargs == 6 else "a1, a2, a3"))
    pragmas = m.group(1)
    if "uintptrkeepalive" not in pragmas:
        die("pragma of %s changed" % name)
    outer = "//go:uintptrescapes\n//go:linkname %s\n" % name + m.group(2) + hook + real
    inner_pr = "".join(l + "\n" for l in pragmas.splitlines() if "linkname" not in l)
    inner = inner_pr + m.group(2).replace("func " + name, "func real" + name)
    text = text[:m.start()] + outer + inner + text[m.end():]
text = text.replace("return RawSyscall6(trap, a1, a2, a3, 0, 0, 0)", "return realRawSyscall6(trap, a1, a2, a3, 0, 0, 0)")
text = text.replace("r1, r2, err = RawSyscall6(", "r1, r2, err = realRawSyscall6(")
emit(std("syscall/syscall_linux.go"), text)
# callers of RawSyscall inside syscall that must stay nosplit (fork path) use the real ones
for rel in ("syscall/exec_linux.go",):
    t = open(std(rel)).read()
    t = re.sub(r"\bRawSyscall6\(", "realRawSyscall6(", t)
    t = re.sub(r"\bRawSyscall\(", "realRawSyscall(", t)
    emit(std(rel), t)
patch(std("syscall/zsyscall_linux_amd64.go"),
      ("func Getpid() (pid int) {\n", "func Getpid() (pid int) {\n\tif l := simOn(); l != nil {\n\t\treturn SimGetpid(l)\n\t}\n"))
patch(std("syscall/env_unix.go"),
      ("func Getenv(key string) (value string, found bool) {\n",
       "func Getenv(key string) (value string, found bool) {\n\tif l := simOn(); l != nil {\n\t\treturn SimGetenv(l, key)\n\t}\n"),
      ("func Environ() []string {\n",
       "func Environ() []string {\n\tif l := simOn(); l != nil {\n\t\treturn SimEnviron(l)\n\t}\n"))
patch(std("syscall/exec_unix.go"),
      ("func StartProcess(argv0 string, argv []string, attr *ProcAttr) (pid int, handle uintptr, err error) {\n",
       "func StartProcess(argv0 string, argv []string, attr *ProcAttr) (pid int, handle uintptr, err error) {\n\tif l := simOn(); l != nil {\n\t\tpid, err = SimStart(l, argv0, argv, attr)\n\t\treturn pid, 0, err\n\t}\n"))

# ---------------------------------------------------------------- time
patch(std("time/time.go"),
      ('import (\n\t"errors"\n\t"math/bits"\n', 'import (\n\t"errors"\n\t"math/bits"\n\t"runtime"\n'),
      ("func Now() Time {\n", '''func Now() Time {
	if SimNow != nil {
		if l := runtime.SimLabel(); l != nil {
			sec, nsec := SimNow(l)
			return Time{uint64(nsec), sec + unixToInternal, Local}
		}
	}
'''),
      ("var startNano int64 = runtimeNano() - 1\n", '''var startNano int64 = runtimeNano() - 1

// SimNow supplies the wall clock on simulator-labelled goroutines.
var SimNow func(label unsafe.Pointer) (sec int64, nsec int32)

// SimSleep supplies Sleep on simulator-labelled goroutines.
var SimSleep func(label unsafe.Pointer, d Duration)
'''))
t = open(replace[std("time/time.go")]).read()
if '"unsafe"' in t and '_ "unsafe"' in t:
    t = t.replace('_ "unsafe"', '"unsafe"', 1)
elif '"unsafe"' not in t:
    t = t.replace('\t"runtime"\n', '\t"runtime"\n\t"unsafe"\n', 1)
emit(std("time/time.go"), t)

# ---------------------------------------------------------------- os
patch(std("os/proc.go"),
      ("func Exit(code int) {\n", "func Exit(code int) {\n\tif SimExit != nil && runtime.SimLabel() != nil {\n\t\tSimExit(code)\n\t}\n"),
      ("func runtime_beforeExit(exitCode int)", "// SimExit ends a simulated process; it does not return.\nvar SimExit func(code int)\n\nfunc runtime_beforeExit(exitCode int)"))
# never try pidfds for simulated children
patch(std("os/exec_posix.go"),
      ("	attrSys, shouldDupPidfd := ensurePidfd(attr.Sys)\n",
       "	if SimExit != nil && runtime.SimLabel() != nil {\n\t\tpid, _, e := syscall.StartProcess(name, argv, &syscall.ProcAttr{Dir: attr.Dir, Env: attr.Env})\n\t\tif e != nil {\n\t\t\treturn nil, &PathError{Op: \"fork/exec\", Path: name, Err: e}\n\t\t}\n\t\treturn newPIDProcess(pid), nil\n\t}\n	attrSys, shouldDupPidfd := ensurePidfd(attr.Sys)\n"))
emit(std("os/zz_sim.go"), '''package os

import "syscall"

// SimProcessState builds the state of a finished simulated child.
func SimProcessState(pid, code int) *ProcessState {
	return &ProcessState{pid: pid, status: syscall.WaitStatus(code << 8)}
}
''')

# ---------------------------------------------------------------- os/exec
patch(std("os/exec/exec.go"),
      ("func (c *Cmd) Start() error {\n", "func (c *Cmd) Start() error {\n\tif simOn() {\n\t\treturn c.simStart()\n\t}\n"),
      ("func (c *Cmd) Wait() error {\n", "func (c *Cmd) Wait() error {\n\tif simOn() {\n\t\treturn c.simWait()\n\t}\n"),
      ("func (c *Cmd) StdinPipe() (io.WriteCloser, error) {\n", "func (c *Cmd) StdinPipe() (io.WriteCloser, error) {\n\tif simOn() {\n\t\treturn c.simStdinPipe()\n\t}\n"),
      ("func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {\n", "func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {\n\tif simOn() {\n\t\treturn c.simStdoutPipe()\n\t}\n"),
      ("func (c *Cmd) StderrPipe() (io.ReadCloser, error) {\n", "func (c *Cmd) StderrPipe() (io.ReadCloser, error) {\n\tif simOn() {\n\t\treturn c.simStderrPipe()\n\t}\n"),
      ("type Cmd struct {\n", "type Cmd struct {\n\tsim simCmd\n\n"))
emit(std("os/exec/zz_sim.go"), '''package exec

import (
	"bytes"
	"errors"
	"io"
	"io/fs"
	"os"
	"runtime"
)

// SimChild is a simulated child process.
type SimChild interface {
	// Stdin receives what the parent writes.
	Stdin() io.WriteCloser
	// Stdout and Stderr are what the child prints.
	Stdout() io.ReadCloser
	Stderr() io.ReadCloser
	// Wait runs the child to its end.
	Wait() (code int)
	Pid() int
}

// SimSpawn starts a simulated child.
var SimSpawn func(path string, args, env []string, dir string) (SimChild, error)

func simOn() bool { return SimSpawn != nil && runtime.SimLabel() != nil }

type simCmd struct {
	child          SimChild
	started        bool
	waited         bool
	inPipe         *simPipe
	outPipe        *simPipe
	errPipe        *simPipe
}

type simPipe struct {
	c      *Cmd
	kind   int
	closed bool
}

func (p *simPipe) Write(b []byte) (int, error) {
	if p.closed {
		return 0, fs.ErrClosed
	}
	if p.c.sim.child == nil {
		return 0, errors.New("exec: pipe used before Start")
	}
	return p.c.sim.child.Stdin().Write(b)
}

func (p *simPipe) Read(b []byte) (int, error) {
	if p.closed {
		return 0, fs.ErrClosed
	}
	if p.c.sim.child == nil {
		return 0, errors.New("exec: pipe used before Start")
	}
	if p.kind == 1 {
		return p.c.sim.child.Stdout().Read(b)
	}
	return p.c.sim.child.Stderr().Read(b)
}

func (p *simPipe) Close() error {
	if p.closed {
		return fs.ErrClosed
	}
	p.closed = true
	if p.c.sim.child == nil {
		return nil
	}
	switch p.kind {
	case 0:
		return p.c.sim.child.Stdin().Close()
	case 1:
		return p.c.sim.child.Stdout().Close()
	}
	return p.c.sim.child.Stderr().Close()
}

func (c *Cmd) simStdinPipe() (io.WriteCloser, error) {
	if c.Stdin != nil || c.sim.inPipe != nil {
		return nil, errors.New("exec: Stdin already set")
	}
	if c.sim.started {
		return nil, errors.New("exec: StdinPipe after process started")
	}
	c.sim.inPipe = &simPipe{c: c, kind: 0}
	return c.sim.inPipe, nil
}

func (c *Cmd) simStdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil || c.sim.outPipe != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	if c.sim.started {
		return nil, errors.New("exec: StdoutPipe after process started")
	}
	c.sim.outPipe = &simPipe{c: c, kind: 1}
	return c.sim.outPipe, nil
}

func (c *Cmd) simStderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil || c.sim.errPipe != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	if c.sim.started {
		return nil, errors.New("exec: StderrPipe after process started")
	}
	c.sim.errPipe = &simPipe{c: c, kind: 2}
	return c.sim.errPipe, nil
}

func (c *Cmd) simStart() error {
	if c.sim.started {
		return errors.New("exec: already started")
	}
	if c.Path == "" && c.Err == nil {
		c.Err = errors.New("exec: no command")
	}
	if c.Err != nil {
		return c.Err
	}
	child, err := SimSpawn(c.Path, c.Args, c.Env, c.Dir)
	if err != nil {
		return &fs.PathError{Op: "fork/exec", Path: c.Path, Err: err}
	}
	c.sim.started = true
	c.sim.child = child
	c.Process = &os.Process{Pid: child.Pid()}
	return nil
}

func (c *Cmd) simWait() error {
	if !c.sim.started {
		return errors.New("exec: not started")
	}
	if c.sim.waited {
		return errors.New("exec: Wait was already called")
	}
	c.sim.waited = true
	ch := c.sim.child
	var copyErr error
	if c.sim.inPipe == nil && c.Stdin != nil {
		if _, isFile := c.Stdin.(*os.File); !isFile {
			_, _ = io.Copy(ch.Stdin(), c.Stdin)
			ch.Stdin().Close()
		}
	}
	code := ch.Wait()
	if c.sim.outPipe == nil && c.Stdout != nil {
		b, _ := io.ReadAll(ch.Stdout())
		_, copyErr = io.Copy(c.Stdout, bytes.NewReader(b))
	}
	if c.sim.errPipe == nil && c.Stderr != nil {
		b, _ := io.ReadAll(ch.Stderr())
		if _, err := io.Copy(c.Stderr, bytes.NewReader(b)); copyErr == nil {
			copyErr = err
		}
	}
	for _, p := range []*simPipe{c.sim.inPipe, c.sim.outPipe, c.sim.errPipe} {
		if p != nil && !p.closed {
			p.Close()
		}
	}
	c.ProcessState = os.SimProcessState(ch.Pid(), code)
	if code != 0 {
		return &ExitError{ProcessState: c.ProcessState}
	}
	return copyErr
}
''')

# ---------------------------------------------------------------- net
if "net" in subprocess.check_output(["go", "list", "-deps", "."], text=True, cwd=repo).split():
    patch(std("net/dial.go"),
          ("func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n",
           "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n\tif SimDial != nil {\n\t\treturn SimDial(network, address, int64(d.Timeout))\n\t}\n"))
    emit(std("net/zz_sim.go"), """package net

// SimDial connects to simulated hosts.
var SimDial func(network, addr string, timeout int64) (Conn, error)
""")

# ---------------------------------------------------------------- dependencies
# Files in the module cache may not be overlaid: the modules concerned are
# copied to OUTDIR/mods and a copy of go.mod replaces them by those copies.
deps = json.loads("[" + re.sub(r"\}\s*\{", "},{", subprocess.check_output(
    ["go", "list", "-deps", "-json=ImportPath,Dir,GoFiles,Module", "."], text=True, cwd=repo)) + "]")
byp = {d["ImportPath"]: d for d in deps}
mods = {}


def moddir(path):
    """Directory of the writable copy of package path, or None if unused."""
    d = byp.get(path)
    if d is None:
        return None
    m = d["Module"]
    if m["Path"] not in mods:
        dst = os.path.join(out, "mods", m["Path"].replace("/", "_"))
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copytree(m["Dir"], dst, ignore=shutil.ignore_patterns("*_test.go", "testdata", "doc"),
                        copy_function=lambda a, b: shutil.copyfile(a, b))
        for root, dirs, files in os.walk(dst):
            os.chmod(root, 0o755)
        if not os.path.exists(os.path.join(dst, "go.mod")):
            with open(os.path.join(dst, "go.mod"), "w") as f:
                f.write("module %s\n" % m["Path"])
        mods[m["Path"]] = (m["Version"], dst)
    return os.path.join(mods[m["Path"]][1], path[len(m["Path"]):].lstrip("/"))


def sub(path, *subs):
    text = open(path).read()
    for old, new in subs:
        if text.count(old) < 1:
            die("anchor not found in %s: %r" % (path, old))
        text = text.replace(old, new, 1)
    with open(path, "w") as f:
        f.write(text)


def swap_pkg(path, repl, keep=()):
    """Replace the Go files of a dependency package by a file from sim/overlay."""
    d = moddir(path)
    if d is None:
        return
    for g in sorted(glob.glob(os.path.join(d, "*.go"))):
        if os.path.basename(g) not in keep:
            os.unlink(g)
    shutil.copyfile(os.path.join(verif, "sim/overlay", repl), os.path.join(d, "zz_sim.go"))


swap_pkg("github.com/aarondl/readline", "readline.go.txt", keep=("complete_helper.go", "runes.go"))
swap_pkg("github.com/atotto/clipboard", "clipboard.go.txt")
swap_pkg("golang.org/x/crypto/scrypt", "scrypt.go.txt")
d = moddir("golang.org/x/crypto/ssh")
if d is not None:
    sub(os.path.join(d, "client.go"),
        ("func NewClientConn(c net.Conn, addr string, config *ClientConfig) (Conn, <-chan NewChannel, <-chan *Request, error) {\n",
         "func NewClientConn(c net.Conn, addr string, config *ClientConfig) (Conn, <-chan NewChannel, <-chan *Request, error) {\n\tif SimConnOf != nil {\n\t\tif srv := SimConnOf(c); srv != nil {\n\t\t\treturn simClientConn(srv, c, addr, config)\n\t\t}\n\t}\n"),
        ("func NewClient(c Conn, chans <-chan NewChannel, reqs <-chan *Request) *Client {\n",
         "func NewClient(c Conn, chans <-chan NewChannel, reqs <-chan *Request) *Client {\n\tif _, ok := c.(*simConn); ok {\n\t\treturn &Client{Conn: c, channelHandlers: map[string]chan NewChannel{}}\n\t}\n"))
    sub(os.path.join(d, "session.go"),
        ("	waitErr := <-s.exitStatus\n", "	s.simFinish()\n	waitErr := <-s.exitStatus\n"))
    shutil.copyfile(os.path.join(verif, "sim/overlay/ssh.go.txt"), os.path.join(d, "zz_sim.go"))
if "crypto/rsa" in byp:
    patch(std("crypto/rsa/rsa.go"),
          ("func GenerateKey(random io.Reader, bits int) (*PrivateKey, error) {\n",
           "func GenerateKey(random io.Reader, bits int) (*PrivateKey, error) {\n\tif SimKey != nil {\n\t\treturn SimKey, nil\n\t}\n"))
    emit(std("crypto/rsa/zz_sim.go"), "package rsa\n\n// SimKey short-cuts key generation in the simulator.\nvar SimKey *PrivateKey\n")

gomod = open(os.path.join(repo, "go.mod")).read()
for path in sorted(mods):
    gomod += "\nreplace %s => %s\n" % (path, mods[path][1])
with open(os.path.join(out, "go.mod"), "w") as f:
    f.write(gomod)
shutil.copyfile(os.path.join(repo, "go.sum"), os.path.join(out, "go.sum"))

# ---------------------------------------------------------------- harness
for g in sorted(glob.glob(os.path.join(verif, "sim", "*.go"))):
    replace[os.path.join(repo, "verifsim", os.path.basename(g))] = g
replace[os.path.join(repo, "zz_verif_test.go")] = os.path.join(verif, "sim/overlay/shim.go.txt")

with open(os.path.join(out, "overlay.json"), "w") as f:
    json.dump({"Replace": replace}, f, indent=1, sort_keys=True)
