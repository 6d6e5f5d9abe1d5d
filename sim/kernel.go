package verifsim

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"crypto/rsa"

	"github.com/aarondl/readline"
	"github.com/atotto/clipboard"
	"golang.org/x/crypto/ssh"
)

//go:linkname setTestingReader crypto/internal/rand.SetTestingReader
func setTestingReader(r io.Reader)

// HarnessError marks trouble in the simulator itself: never a verdict.
type HarnessError struct{ msg string }

func (h HarnessError) Error() string { return h.msg }

func harness(format string, a ...any) { panic(HarnessError{fmt.Sprintf(format, a...)}) }

// Fault is one planned fault.
type Fault struct {
	At   int    `json:"at"`             // event number within the session
	Kind string `json:"kind"`           // kill, power, eio, enospc, erofs, eacces, eintr, short, ...
	Op   string `json:"op,omitempty"`   // when set: the At-th event of this kind of operation
	N    int    `json:"n,omitempty"`    // kind-specific argument
	Stay bool   `json:"stay,omitempty"` // fault persists for the rest of the session
}

// World is one simulated run.
type World struct {
	seed     uint64
	troubled bool // a file system was read-only
	sched    *Rand
	crash    *Rand
	now      int64 // true time, unix nanoseconds
	events   uint64
	devs     []*Device
	share    *FS
	servers  map[string]*Server
	procs    []*Proc
	live     []*Proc
	loaded   *Proc
	back     chan *Proc
	prog     func()
	stick    int // 1/stick chance to switch process at an event
	hash     uint64
	logOn    bool
	trace    []string
	stats    Stats
	maxEv    int
	switches int
	shape    uint64 // hash of the interleaving: who did what kind of step, in order
	hooks    worldHooks
	edits    []*editFile
}

type worldHooks struct {
	// onWrite observes every successful write to a file.
	onWrite func(p *Proc, n *Inode)
	// onUnlink observes every file about to be removed.
	onUnlink func(p *Proc, n *Inode, path string)
	// onExec observes the arguments of programs that are started.
	onExec func(p *Proc, argv []string)
	// onEvent is called after every event of a process.
	onEvent func(p *Proc, kind, arg string)
	// onEnd is called when a session ended, crashed or not.
	onEnd func(p *Proc)
	// states observes the model before each command of a session.
	states func(p *Proc, op int, m *Model)
	// answer replies to prompts the session has no scripted reply for.
	answer func(p *Proc, prompt string) (string, bool)
}

// Stats counts what a run actually did.
type Stats struct {
	Events   int
	Procs    int
	SimTime  int64
	Switches int
	Faults   map[string]int
	Probes   map[string]int
	Prompts  int
	Commands int
}

func (s *Stats) fault(k string) {
	if s.Faults == nil {
		s.Faults = map[string]int{}
	}
	s.Faults[k]++
}

func (w *World) probe(k string) {
	if w.stats.Probes == nil {
		w.stats.Probes = map[string]int{}
	}
	w.stats.Probes[k]++
}

// Device is a machine: file system, clock, clipboard, installed programs.
type Device struct {
	w        *World
	idx      int
	name     string
	fs       *FS
	clockOff int64
	clockRes int64
	clip     string
	clipSets []string
	clipTime []int64 // device time of each
	clipErr  bool
	env      map[string]string
	programs map[string]childFunc
	opened   []string // URLs handed to xdg-open
	clockMin int64
	frozen   bool
	downProc int
}

func (d *Device) time() int64 {
	t := d.w.now + d.clockOff
	if d.clockRes > 1 {
		t -= t % d.clockRes
	}
	return t
}

// Proc is one simulated bpass process.
type Proc struct {
	w       *World
	dev     *Device
	id      int
	label   unsafe.Pointer
	args    []string
	env     map[string]string
	cwd     string
	nows    int // how often it looked at the clock
	fds     map[int]*FD
	nextFD  int
	image   []unsafe.Pointer
	resume  chan struct{}
	started bool
	dead    bool // killed
	doomed  bool // its device lost power while it was not running
	lost    bool // power loss already applied
	done    bool
	exited  bool
	code    int
	panicV  any
	stack   string
	out     bytes.Buffer // stdout and stderr interleaved, as on a terminal
	events  int
	byOp    map[string]int
	faults  []Fault
	fired   int // faults that actually happened
	sticky  map[string]Fault
	agent   *Agent
	rnd     *Rand
	rndMode string
	pins    int    // pinentry programs started
	pinBad  string // what a pinentry was told wrongly
	rndRead int    // random bytes taken from the system
	runaway string
	crashed string
	umask   uint32
	kinds   []string // kinds of events, when recording
	xtra    any
	sess    *Session
	stepIdx int
	sessIdx int
	t0, t1  int64 // device clock at start and end
}

// FD is an open file description.
type FD struct {
	n    *Inode
	pos  int64
	flag int
	path string
	dirk []string
	dpos int
}

var (
	curWorld  *World
	procByLbl map[unsafe.Pointer]*Proc
	lastProc  *Proc
)

func procOf(label unsafe.Pointer) *Proc {
	p := procByLbl[label]
	if p == nil {
		harness("hook called from an unknown process")
	}
	return p
}

func here() *Proc { return procOf(runtime.SimLabel()) }

type simRandReader struct{ harness *Rand }

func (s *simRandReader) Read(b []byte) (int, error) {
	r := s.harness
	if l := runtime.SimLabel(); l != nil {
		p := procOf(l)
		p.rndRead += len(b)
		if p.rndMode != "" {
			return degenerate(p, b)
		}
		r = p.rnd
	}
	for i := 0; i < len(b); {
		v := r.Next()
		for j := 0; j < 8 && i < len(b); j++ {
			b[i] = byte(v)
			v >>= 8
			i++
		}
	}
	return len(b), nil
}

// degenerate feeds legal but extreme random bytes.
func degenerate(p *Proc, b []byte) (int, error) {
	for i := range b {
		v := byte(p.rnd.Next())
		switch p.rndMode {
		case "zero":
			v = 0
		case "ones":
			v = 0xff
		case "alt":
			v = byte(i&1) * 0xff
		case "low":
			v &= 3
		case "high":
			v |= 0xfc
		case "count":
			v = byte(i)
		case "mixed":
			switch p.rnd.N(4) {
			case 0:
				v = 0
			case 1:
				v = 0xff
			}
		}
		b[i] = v
	}
	return len(b), nil
}

// installHooks points every seam at the simulator. They act only on goroutines
// that carry a process label.
func installHooks() {
	time.Local = time.UTC
	setTestingReader(&simRandReader{NewRand(0x51)})
	syscall.SimSyscall = func(l unsafe.Pointer, trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, uintptr, syscall.Errno) {
		return procOf(l).syscall(trap, a1, a2, a3, a4, a5, a6)
	}
	syscall.SimGetenv = func(l unsafe.Pointer, k string) (string, bool) {
		v, ok := procOf(l).env[k]
		return v, ok
	}
	syscall.SimEnviron = func(l unsafe.Pointer) []string {
		p := procOf(l)
		var out []string
		for _, k := range sortedKeys(p.env) {
			out = append(out, k+"="+p.env[k])
		}
		return out
	}
	syscall.SimGetpid = func(l unsafe.Pointer) int { return 4000 + procOf(l).id }
	syscall.SimStart = func(l unsafe.Pointer, argv0 string, argv []string, attr *syscall.ProcAttr) (int, error) {
		return procOf(l).startProcess(argv0, argv)
	}
	time.SimNow = func(l unsafe.Pointer) (int64, int32) {
		p := procOf(l)
		p.w.now += 1000 + int64(hash2(p.w.seed, uint64(p.w.now))%3000)
		p.nows++
		for _, f := range p.faults {
			if f.Op == "now" && f.At == p.nows {
				p.w.stats.fault(f.Kind)
				p.w.note("p%d %s %d ms", p.id, f.Kind, f.N)
				switch f.Kind {
				case "pause": // the process, or all of the device, stood still
					p.w.now += int64(f.N) * 1e6
				case "step": // the clock was set
					p.dev.clockOff += int64(f.N) * 1e6
				}
			}
		}
		t := p.dev.time()
		return t / 1e9, int32(t % 1e9)
	}
	os.SimExit = func(code int) { here().exit(code) }
	exec.SimSpawn = func(path string, args, env []string, dir string) (exec.SimChild, error) {
		return here().spawn(path, args)
	}
	readline.SimLine = func(inst *readline.Instance, prompt string, hidden bool) (string, error) {
		return here().prompt(inst, prompt, hidden)
	}
	clipboard.SimWrite = func(s string) error {
		p := here()
		f := p.event("clip", "")
		p.checkFaultless()
		if p.dev.clipErr || f.Kind == "clip" {
			if p.agent != nil {
				p.agent.clipLost(s)
			}
			p.w.stats.fault("clipboard-error")
			return errors.New("exit status 1")
		}
		if p.agent != nil {
			p.agent.unclear = false
		}
		p.dev.clip = s
		p.dev.clipSets = append(p.dev.clipSets, s)
		p.dev.clipTime = append(p.dev.clipTime, p.dev.time())
		return nil
	}
	clipboard.SimRead = func() (string, error) { return here().dev.clip, nil }
	net.SimDial = func(network, addr string, timeout int64) (net.Conn, error) {
		c, err := here().dial(addr, timeout)
		if err != nil {
			return nil, err
		}
		return netConn{c}, nil
	}
	ssh.SimConnOf = func(c net.Conn) ssh.SimServer {
		if a, ok := c.RemoteAddr().(srvAddr); ok {
			return a.c
		}
		return nil
	}
	rsa.SimKey = simRSAKey()
}

func newWorld(seed uint64, prog func()) *World {
	w := &World{seed: seed, sched: NewRand(hash2(seed, 1)), crash: NewRand(hash2(seed, 2)), prog: prog,
		servers: map[string]*Server{}, back: make(chan *Proc), stick: 3, hash: 14695981039346656037, maxEv: 60000}
	w.now = 1700000000_000000000 + int64(hash2(seed, 3)%(300*86400))*1e9 + int64(hash2(seed, 4)%1e9)
	w.share = newFS("share")
	w.share.now = func() int64 { return w.now }
	curWorld = w
	procByLbl = map[unsafe.Pointer]*Proc{}
	lastProc = nil
	return w
}

func (w *World) addDevice(name string) *Device {
	d := &Device{w: w, idx: len(w.devs), name: name, fs: newFS(name), clockRes: 1,
		env:      map[string]string{"HOME": "/home/u", "PATH": "/usr/bin", "PINENTRY": "none", "TERM": "xterm"},
		programs: map[string]childFunc{}}
	d.fs.now = d.time
	for _, p := range []string{"/home/u", "/tmp", "/usr/bin", "/mnt/share", "/home/u/.config", "/home/u/.cache"} {
		d.fs.mkdirAll(p)
	}
	d.fs.mounts["/mnt/share"] = w.share
	w.devs = append(w.devs, d)
	return d
}

func (d *Device) install(name string, f childFunc) {
	d.programs[name] = f
	d.fs.put("/usr/bin/"+name, []byte("#!sim"), 0755)
}

func (w *World) note(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	for i := 0; i < len(s); i++ {
		w.hash = (w.hash ^ uint64(s[i])) * 1099511628211
	}
	w.hash = (w.hash ^ 10) * 1099511628211
	if w.logOn {
		w.trace = append(w.trace, s)
	}
}

// ---- processes

func (w *World) newProc(d *Device, args []string, env map[string]string) *Proc {
	p := &Proc{w: w, dev: d, stepIdx: -1, id: len(w.procs), cwd: "/home/u", fds: map[int]*FD{}, nextFD: 1000,
		resume: make(chan struct{}), byOp: map[string]int{}, sticky: map[string]Fault{}, env: map[string]string{}, umask: 022}
	p.args = append([]string{"/usr/bin/bpass"}, args...)
	for k, v := range d.env {
		p.env[k] = v
	}
	for k, v := range env {
		p.env[k] = v
	}
	p.rnd = NewRand(hash2(w.seed, 1000+uint64(p.id)))
	w.procs = append(w.procs, p)
	w.stats.Procs++
	return p
}

func (p *Proc) start() {
	p.started = true
	p.t0 = p.dev.time()
	ready := make(chan struct{})
	go func() {
		pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("sim", fmt.Sprint(p.id))))
		p.label = runtime.SimLabel()
		procByLbl[p.label] = p
		defer func() {
			pprof.SetGoroutineLabels(context.Background())
			if r := recover(); r != nil {
				if h, ok := r.(HarnessError); ok {
					fatalHarness(h)
				}
				p.panicV = r
				p.stack = string(debug.Stack())
				p.code = 2
			}
			p.done = true
			p.w.back <- p
		}()
		close(ready)
		<-p.resume
		runInits()
		p.w.prog()
	}()
	<-ready
}

var fatalHarness = func(h HarnessError) {
	fmt.Fprintln(os.Stderr, "HARNESS ERROR:", h.msg)
	os.Stderr.Sync()
	realExit(2)
}

func realExit(code int) {
	runtime.SimSetLabel(nil)
	os.Exit(code)
}

// run executes the given processes concurrently until all have ended.
func (w *World) run(ps ...*Proc) {
	for _, p := range ps {
		w.live = append(w.live, p)
		p.start()
	}
	var cur *Proc
	for len(w.live) > 0 {
		if cur == nil {
			cur = w.live[w.sched.N(len(w.live))]
		}
		w.switchTo(cur)
		cur.resume <- struct{}{}
		p := <-w.back
		if p != cur {
			harness("scheduler: unexpected process")
		}
		if p.done {
			w.finish(p)
			for i, q := range w.live {
				if q == p {
					w.live = append(w.live[:i:i], w.live[i+1:]...)
					break
				}
			}
			cur = nil
			continue
		}
		next := w.live[w.sched.N(len(w.live))]
		if next != cur {
			w.switches++
			w.stats.Switches++
		}
		cur = next
	}
}

func (w *World) switchTo(p *Proc) {
	if w.loaded == p {
		return
	}
	if w.loaded != nil && !w.loaded.done {
		w.loaded.image = saveGlobals(w.loaded.image)
	}
	if p.image == nil {
		loadGlobals(pristine)
	} else {
		loadGlobals(p.image)
	}
	os.Args = append([]string(nil), p.args...)
	w.loaded = p
}

// finish closes what the ended process left open.
func (w *World) finish(p *Proc) {
	p.fds = map[int]*FD{}
	if lastProc == p {
		lastProc = nil
	}
	delete(procByLbl, p.label)
	p.image = nil
	p.t1 = p.dev.time()
	w.note("end p%d code=%d dead=%v panic=%v out=%x", p.id, p.code, p.dead, p.panicV != nil, fnv(p.out.Bytes()))
	for _, k := range sortedKeys(w.servers) {
		w.servers[k].clientGone(p)
	}
	if p.crashed == "power" && !p.doomed {
		s := p.dev.fs.powerLoss(w.crash)
		w.note("power loss on %s: %s", p.dev.name, s)
	}
	if w.hooks.onEnd != nil {
		w.hooks.onEnd(p)
	}
}

func fnvs(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func fnv(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

// exit ends a process; it does not return.
func (p *Proc) exit(code int) {
	if p.dead {
		runtime.Goexit()
	}
	p.exited = true
	p.code = code
	p.dead = true // deferred functions must not act: os.Exit runs none
	runtime.Goexit()
}

func (p *Proc) kill(kind string) {
	p.crashed = kind
	p.code = 137
	if kind == "power" {
		for _, q := range p.w.live {
			if q != p && q.dev == p.dev {
				q.doomed = true
			}
		}
	}
	p.w.note("crash %s p%d ev=%d", kind, p.id, p.events)
	p.dead = true
	runtime.Goexit()
}

// event is called at every point where a process meets the outside world: it
// advances time, decides who runs next and injects planned crashes. It returns
// the fault to apply to the operation itself, if any.
func (p *Proc) event(op, arg string) (f Fault) {
	w := p.w
	if p.dead {
		if p.exited || p.crashed != "" || p.runaway != "" {
			// deferred functions of an ended process have no effect
			return Fault{Kind: "dead"}
		}
	}
	p.events++
	p.byOp[op]++
	w.events++
	w.stats.Events++
	w.now += 2000 + int64(hash2(w.seed, w.events)%200000)
	runtime.SimRand = hash2(w.seed^0x5eed, w.events)
	w.note("p%d %d %s %s", p.id, p.events, op, arg)
	p.kinds = append(p.kinds, op)
	w.shape = (w.shape ^ uint64(p.id)*31 ^ fnvs(op)) * 1099511628211
	if w.hooks.onEvent != nil {
		w.hooks.onEvent(p, op, arg)
	}
	if p.events > w.maxEv {
		p.stop("event limit")
	}
	if len(w.live) > 1 && w.sched.P(1, w.stick) {
		w.back <- p
		<-p.resume
		runtime.SimRand = hash2(w.seed^0x5eed, w.events)
		if p.doomed {
			p.kill("power")
		}
	}
	for i, pf := range p.faults {
		hit := pf.Op == "" && pf.At == p.events || pf.Op == op && pf.At == p.byOp[op]
		if !hit || pf.Kind == "" {
			continue
		}
		switch pf.Kind {
		case "kill", "power":
			w.stats.fault(pf.Kind)
			p.fired++
			p.kill(pf.Kind)
		}
		if faultApplies(pf.Kind, op) {
			p.faults[i].Kind = "" // consumed
			if pf.Stay {
				p.sticky[pf.Kind] = pf
			}
			p.fired++
			w.stats.fault(pf.Kind)
			w.note("fault %s on %s", pf.Kind, op)
			return pf
		}
		if pf.Op == "" {
			p.faults[i].At++ // wait for an event it can apply to
		}
	}
	for _, k := range sortedKeys(p.sticky) {
		if faultApplies(k, op) {
			w.stats.fault(k)
			return p.sticky[k]
		}
	}
	return Fault{}
}

// checkFaultless refuses to go on in an ended process.
func (p *Proc) checkFaultless() {
	if p.dead {
		runtime.Goexit()
	}
}

// stop ends a process that does not terminate by itself.
func (p *Proc) stop(why string) {
	p.runaway = why
	p.w.note("runaway p%d: %s", p.id, why)
	p.code = -1
	p.dead = true
	runtime.Goexit()
}

var faultOps = map[string]string{
	"eio":    " write read fsync open rename close truncate getdents unlink",
	"enospc": " write create fsync rename mkdir",
	"erofs":  " write create openw rename unlink truncate mkdir chmod",
	"eacces": " create openw open rename",
	"enoent": " open",
	"short":  " write read",
	"eintr":  " write read open fsync close",
	"stall":  " dial sshwrite sshread exec sshexit auth hostkey",
	"drop":   " dial sshwrite sshread exec sshclose sshexit auth hostkey",
	"refuse": " dial",
	"spoof":  " dial",
	"rekey":  " dial",
	"authno": " auth",
	"frag":   " sshread",
	"rfail":  " exec",
	"clip":   " clip",
}

func faultApplies(kind, op string) bool {
	for _, o := range strings.Fields(faultOps[kind]) {
		if o == op {
			return true
		}
	}
	return false
}
