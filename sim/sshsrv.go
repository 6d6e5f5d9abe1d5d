package verifsim

import (
	"bytes"
	"crypto/ed25519"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"golang.org/x/crypto/ssh"
)

// Server is a simulated ssh host with an scp binary and one home directory.
type Server struct {
	w        *World
	addr     string // host:port
	ip       string
	keySeed  byte
	keyAlgo  string // ssh-ed25519 or ssh-rsa
	fs       *FS
	users    map[string]string // user -> password ("" : only keys)
	authKeys map[string]bool   // marshalled authorised keys
	anyKey   bool
	mitm     byte // when set: an impostor answers, with this key seed
	down     bool
	frag     bool
	maxRead  int
	conns    []*srvConn
	got      []credential // what clients presented while an impostor answered
	uploads  int
	readOnly bool
	full     bool // disk full
	exitCode int  // scp exits with this although the transfer looked fine; from 3 on, only with uploads
	noRead   int  // files cannot be opened for reading
	badDisk  bool // reading fails half way
	rude     int  // scp does not keep to the protocol
	warn     bool
	odd      []string // commands that are no transfers
}

type credential struct{ user, secret string }

func (w *World) addServer(addr string, seed byte) *Server {
	s := &Server{w: w, addr: addr, ip: "192.0.2." + strconv.Itoa(10+len(w.servers)), keySeed: seed, keyAlgo: ssh.KeyAlgoED25519,
		fs: newFS("srv-" + addr), users: map[string]string{}, authKeys: map[string]bool{}}
	s.fs.now = func() int64 { return w.now }
	s.fs.mkdirAll("/home/srv")
	w.servers[addr] = s
	return s
}

func edPub(seed byte) ssh.PublicKey {
	priv := ed25519.NewKeyFromSeed(bytes.Repeat([]byte{seed}, 32))
	k, err := ssh.NewPublicKey(priv.Public())
	if err != nil {
		harness("host key: %v", err)
	}
	return k
}

type srvConn struct {
	s      *Server
	p      *Proc
	impost bool
	dead   bool
	closed bool
	execs  []*srvExec
	key    ssh.PublicKey // presented
	authed bool          // the client tried to authenticate

	stalled bool     // nothing is sent or acknowledged any more
	conn    net.Conn // as the client uses it
	until   int64    // read deadline on the device's clock, 0: none
}

func (s *Server) clientGone(p *Proc) {
	for _, c := range s.conns {
		if c.p == p && !c.dead && !c.closed {
			c.dead = true
			for _, x := range c.execs {
				x.hangup()
			}
		}
	}
}

var errConn = errors.New("read tcp: connection reset by peer")

// sshConnectTimeout is how long a system tries to connect.
const sshConnectTimeout = 127e9

func (p *Proc) dial(addr string, timeout int64) (*srvConn, error) {
	f := p.event("dial", addr)
	p.checkFaultless()
	s := p.w.servers[addr]
	if s == nil {
		return nil, fmt.Errorf("dial tcp: lookup %s: no such host", addr)
	}
	if s.down || f.Kind == "refuse" || f.Kind == "drop" {
		p.w.stats.fault("refused")
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
	}
	switch f.Kind {
	case "stall":
		if timeout <= 0 || timeout > sshConnectTimeout {
			timeout = sshConnectTimeout
		}
		p.w.now += timeout
		p.w.stats.fault("stalled-connect")
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ETIMEDOUT}
	case "spoof": // an impostor takes the place of the host, or leaves it
		s.mitm = byte(f.N)
	case "rekey":
		s.keySeed = byte(f.N)
	}
	c := &srvConn{s: s, p: p, impost: s.mitm != 0}
	s.conns = append(s.conns, c)
	return c, nil
}

func (c *srvConn) step(op string) error {
	f := c.p.event(op, c.s.addr)
	c.p.checkFaultless()
	if c.dead {
		return errConn
	}
	if f.Kind == "drop" {
		c.drop()
		return errConn
	}
	if f.Kind == "rfail" {
		return errors.New("ssh: rejected")
	}
	if f.Kind == "stall" && !c.stalled {
		c.stalled = true
		c.p.w.stats.fault("stalled-" + op)
	}
	if c.stalled {
		// ssh reads all the time
		_, err := c.conn.Read(make([]byte, 1))
		c.drop()
		return err
	}
	return nil
}

// netConn is the client's end of the connection.
type netConn struct{ c *srvConn }

func (n netConn) Read(b []byte) (int, error) {
	c := n.c
	if !c.stalled {
		harness("read from the connection of %s", c.s.addr)
	}
	if c.until == 0 {
		c.p.stop("waits for ever for " + c.s.addr)
	}
	if d := c.until - c.p.dev.time(); d > 0 {
		c.p.w.now += d
	}
	return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
}

func (n netConn) Write(b []byte) (int, error) {
	harness("write to the connection of %s", n.c.s.addr)
	return 0, nil
}
func (n netConn) Close() error         { return n.c.Close() }
func (n netConn) LocalAddr() net.Addr  { return simAddr("192.0.2.1:40000") }
func (n netConn) RemoteAddr() net.Addr { return n.c.RemoteAddr() }
func (n netConn) SetDeadline(t time.Time) error {
	return n.SetReadDeadline(t)
}
func (n netConn) SetReadDeadline(t time.Time) error {
	n.c.until = 0
	if !t.IsZero() {
		n.c.until = t.UnixNano()
	}
	return nil
}
func (n netConn) SetWriteDeadline(t time.Time) error { return nil }

func (c *srvConn) Use(n net.Conn) { c.conn = n }

func (c *srvConn) drop() {
	c.dead = true
	for _, x := range c.execs {
		x.hangup()
	}
}

func (c *srvConn) HostKey(algos []string) (ssh.PublicKey, error) {
	if err := c.step("hostkey"); err != nil {
		return nil, err
	}
	algo := c.s.keyAlgo
	ok := len(algos) == 0
	for _, a := range algos {
		if a == algo {
			ok = true
		}
	}
	if !ok {
		return nil, fmt.Errorf("ssh: no common algorithm for host key")
	}
	k := func() ssh.PublicKey {
		seed, rsa := c.s.keySeed, algo == ssh.KeyAlgoRSA
		if c.impost {
			c.s.w.stats.fault("impostor-host")
			// 255 is an impostor with another type of key
			seed, rsa = c.s.mitm, rsa != (c.s.mitm == 255)
			if rsa && algo == ssh.KeyAlgoRSA {
				rsa = false // there is but one RSA key
			}
		}
		if !rsa {
			return edPub(seed)
		}
		k, err := ssh.NewPublicKey(&simRSAKey().PublicKey)
		if err != nil {
			harness("%v", err)
		}
		return k
	}()
	c.key = k
	return k, nil
}

func (c *srvConn) AuthPassword(user, pass string) (bool, error) {
	c.authed = true
	if err := c.step("auth"); err != nil {
		return false, err
	}
	if c.impost {
		c.s.got = append(c.s.got, credential{user, pass})
		return true, nil
	}
	want, ok := c.s.users[user]
	return ok && want != "" && want == pass, nil
}

func (c *srvConn) AuthKey(user string, keys []ssh.PublicKey) (bool, error) {
	c.authed = true
	if err := c.step("auth"); err != nil {
		return false, err
	}
	if c.impost {
		c.s.got = append(c.s.got, credential{user, "publickey"})
		return true, nil
	}
	if _, ok := c.s.users[user]; !ok {
		return false, nil
	}
	for _, k := range keys {
		if c.s.anyKey && c.s.w.keyShown(k) || c.s.authKeys[string(k.Marshal())] {
			return true, nil
		}
	}
	return false, nil
}

// keyShown tells whether the user was shown a public key, so that it could be
// installed on a host.
func (w *World) keyShown(k ssh.PublicKey) bool {
	line := bytes.TrimSpace(ssh.MarshalAuthorizedKey(k))
	for _, p := range w.procs {
		if bytes.Contains(p.out.Bytes(), line) {
			return true
		}
	}
	return false
}

// srvAddr is the address of a simulated host.
type srvAddr struct {
	simAddr
	c *srvConn
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

func (c *srvConn) RemoteAddr() net.Addr {
	_, port, _ := net.SplitHostPort(c.s.addr)
	return srvAddr{simAddr(net.JoinHostPort(c.s.ip, port)), c}
}

func (c *srvConn) Close() error {
	if c.closed {
		return errors.New("use of closed network connection")
	}
	if c.p.dead {
		return nil
	}
	c.p.event("sshclose", c.s.addr)
	c.closed = true
	for _, x := range c.execs {
		x.hangup()
	}
	return nil
}

// srvExec is a remote scp process: a state machine fed by the client's bytes.
type srvExec struct {
	c      *srvConn
	path   string
	sink   bool
	out    bytes.Buffer
	in     []byte
	state  int
	inEOF  bool
	done   bool
	code   int
	length int
	got    int
	node   *Inode
	file   []byte
	acks   int
	hung   bool
	fail   string
	bad    bool // a failure that has to be reported
}

func (c *srvConn) Exec(cmd string) (ssh.SimExec, error) {
	if err := c.step("exec"); err != nil {
		return nil, err
	}
	x := &srvExec{c: c}
	var from, to bool
	x.path, from, to = scpCommand(cmd)
	x.sink = to
	if from == to {
		// other remote commands are a shell's business: not installed here
		c.s.odd = append(c.s.odd, cmd)
		x.done, x.code = true, 127
		c.execs = append(c.execs, x)
		return x, nil
	}
	if !strings.HasPrefix(x.path, "/") {
		x.path = "/home/srv/" + x.path
	}
	c.execs = append(c.execs, x)
	if x.sink && c.s.rude%2 == 1 && !c.impost {
		x.rudeSink()
	} else if x.sink {
		x.out.WriteByte(0) // scp -t is ready
	}
	return x, nil
}

// shellWords splits a command line like a shell; plain is false when the shell
// would do more than that.
func shellWords(cmd string) (words []string, plain bool) {
	plain = true
	var w []byte
	in := false
	end := func() {
		if in {
			words = append(words, string(w))
			w, in = nil, false
		}
	}
	for i := 0; i < len(cmd); i++ {
		switch c := cmd[i]; c {
		case ' ', '\t':
			end()
		case '\'':
			in = true
			n := strings.IndexByte(cmd[i+1:], '\'')
			if n < 0 {
				return words, false
			}
			w = append(w, cmd[i+1:i+1+n]...)
			i += n + 1
		case '"':
			in = true
			for i++; ; i++ {
				if i >= len(cmd) {
					return words, false
				}
				if cmd[i] == '"' {
					break
				}
				if cmd[i] == '\\' && i+1 < len(cmd) && strings.IndexByte("\"\\$`", cmd[i+1]) >= 0 {
					i++
				} else if cmd[i] == '$' || cmd[i] == '`' {
					plain = false
				}
				w = append(w, cmd[i])
			}
		case '\\':
			in = true
			if i++; i < len(cmd) {
				w = append(w, cmd[i])
			}
		case ';', '&', '|', '<', '>', '(', ')', '$', '`', '*', '?', '[', '\n', '!':
			plain = false
			in = true
			w = append(w, c)
		case '#':
			plain = plain && in
			w = append(w, c)
			in = true
		case '~':
			if !in && (i+1 == len(cmd) || cmd[i+1] == '/' || cmd[i+1] == ' ') {
				w = append(w, "/home/srv"...)
			} else {
				w = append(w, c)
			}
			in = true
		default:
			in = true
			w = append(w, c)
		}
	}
	end()
	return words, plain
}

// scpCommand parses the command line of a remote scp.
func scpCommand(cmd string) (path string, from, to bool) {
	words, plain := shellWords(cmd)
	if !plain || len(words) == 0 || words[0] != "scp" {
		return "", false, false
	}
	words = words[1:]
	for len(words) > 0 && strings.HasPrefix(words[0], "-") {
		f := words[0]
		words = words[1:]
		if f == "--" {
			break
		}
		from = from || strings.Contains(f, "f")
		to = to || strings.Contains(f, "t")
	}
	if len(words) != 1 {
		return "", false, false
	}
	return words[0], from, to
}

func (x *srvExec) hangup() {
	if x.done {
		return
	}
	x.done, x.code, x.hung = true, 1, true
}

func (x *srvExec) Write(p []byte) (int, error) {
	done := x.done
	if err := x.c.step("sshwrite"); err != nil {
		// the bytes may have partly arrived before the connection died
		if !done && !x.c.p.dead {
			x.done = false
			if n := int(hash2(x.c.p.w.seed^11, x.c.p.w.events) % uint64(len(p)+1)); n > 0 {
				x.in = append(x.in, p[:n]...)
				x.pump()
			}
			x.done, x.code, x.hung = true, 1, true
		}
		return 0, err
	}
	if x.done {
		return len(p), nil // remote gone, still buffered locally
	}
	x.in = append(x.in, p...)
	x.pump()
	return len(p), nil
}

func (x *srvExec) CloseWrite() error {
	if err := x.c.step("sshwrite"); err != nil {
		return err
	}
	x.inEOF = true
	x.pump()
	return nil
}

func (x *srvExec) remoteErr(msg string) {
	x.out.WriteByte(1)
	x.out.WriteString(msg + "\n")
}

func (x *srvExec) pump() {
	if x.done {
		return
	}
	if x.sink {
		x.pumpSink()
	} else {
		x.pumpSource()
	}
}

// pumpSource is scp -f: wait for an ack, header, ack, data and 0, ack, exit.
func (x *srvExec) pumpSource() {
	for {
		if x.done {
			return
		}
		if len(x.in) == 0 {
			if x.inEOF {
				x.done, x.code = true, 1
			}
			return
		}
		b := x.in[0]
		x.in = x.in[1:]
		if b != 0 {
			x.done, x.code = true, 1
			return
		}
		switch x.state {
		case 0:
			data, ok := x.c.s.fs.read(x.path)
			if x.c.impost {
				data, ok = []byte("impostor"), true
			}
			if !ok {
				x.remoteErr("scp: " + x.path + ": No such file or directory")
				x.done, x.code = true, 1
				return
			}
			if x.c.s.noRead != 0 && !x.c.impost {
				why := []string{"Permission denied", "No such device or address", "Input/output error", "not a regular file", "Too many levels of symbolic links", "Stale file handle", "No such device", "Not a directory"}
				x.remoteErr("scp: " + x.path + ": " + why[x.c.s.noRead%len(why)])
				x.done, x.code, x.bad = true, 1, true
				return
			}
			x.file = data
			_, base := splitPath(x.path)
			if x.c.s.rude != 0 && x.c.s.rude < 1000 && !x.c.impost {
				x.rudeSource(base)
				return
			}
			fmt.Fprintf(&x.out, "C0600 %d %s\n", len(data), base)
			x.state = 1
		case 1:
			if x.c.s.badDisk && !x.c.impost {
				// scp sends as many bytes as it announced and then the error
				x.out.Write(x.file[:len(x.file)/2])
				x.out.Write(make([]byte, len(x.file)-len(x.file)/2))
				x.remoteErr("scp: " + x.path + ": Input/output error")
				x.done, x.code, x.bad = true, 1, true
				return
			}
			x.out.Write(x.file)
			x.out.WriteByte(0)
			x.state = 2
		case 2:
			x.done = true
			if x.c.s.exitCode < 3 {
				x.code = x.c.s.exitCode
			}
			x.bad = x.code != 0
		}
	}
}

// rudeSource answers a request for a file with nonsense.
func (x *srvExec) rudeSource(base string) {
	n := len(x.file)
	x.done, x.code = true, 1
	head := ""
	body := append([]byte(nil), x.file...)
	switch x.c.s.rude % 18 {
	case 0:
		head = fmt.Sprintf("C0600 -%d %s\n", 2+n, base)
	case 1:
		head = fmt.Sprintf("C0600 -1 %s\n", base)
	case 2:
		head = "C0600 999999999999999999999 " + base + "\n"
	case 3:
		head = fmt.Sprintf("C0600 %d\n", n)
	case 4:
		head = "D0755 0 " + base + "\n"
	case 5:
		head, body = "\x02", nil
	case 6:
		body = nil
	case 7:
		head = fmt.Sprintf("Cmode %d %s\n", n, base)
	case 8:
		head, body = "C\n", nil
	case 9:
		head, body = fmt.Sprintf("C0600 %d %s", n, base), nil
	case 10:
		head = fmt.Sprintf("C0600 %d %s\n", (n-1)*2/3, base)
	case 11:
		head = fmt.Sprintf("C0600 %d %s\n", n+5, base)
	case 12:
		head, body = fmt.Sprintf("C0600 %d %s\n", n, base), append(body, 1)
	case 13:
		head = "\n"
	case 14:
		head = "T0 0 0 0\n"
	case 15:
		head = fmt.Sprintf("C0600 0x%x %s\n", n, base)
	case 16:
		head, body = "\x01\n", nil
	case 17:
		// all of it, and then it failed
		head, body = fmt.Sprintf("C0600 %d %s\n", n, base), append(body, "\x02scp: Input/output error\n"...)
	}
	x.out.WriteString(head)
	x.out.Write(body)
	if x.c.s.rude%2 == 0 {
		x.out.WriteByte(0)
	}
	if x.c.s.rude%3 == 0 {
		x.code = 0
	}
	x.bad = x.code != 0 || x.c.s.rude%18 == 12 || x.c.s.rude%18 == 17
}

// rudeSink answers an upload with nonsense.
func (x *srvExec) rudeSink() {
	n := x.out.Len()
	switch x.c.s.rude / 2 % 6 {
	case 0:
		x.out.WriteByte(7)
	case 1:
		x.out.WriteString("\x02no")
	case 2:
		// nothing at all
	case 3:
		x.out.WriteByte(1)
	case 4:
		x.out.WriteString("\x02")
	case 5:
		x.out.WriteString("\x01scp: \x00\xff\n")
	}
	x.done, x.code = true, 1
	if x.c.s.rude%5 == 0 {
		x.code = 0
	}
	// not one that was silent and ended well after it was ready
	x.bad = x.code != 0 || x.out.Len() > n || x.c.s.rude%2 == 1
}

// pumpSink is scp -t.
func (x *srvExec) pumpSink() {
	for {
		switch x.state {
		case 0: // header
			i := bytes.IndexByte(x.in, '\n')
			if i < 0 {
				if x.inEOF {
					x.done, x.code = true, 0
				}
				return
			}
			h := string(x.in[:i])
			x.in = x.in[i+1:]
			f := strings.SplitN(h, " ", 3)
			if len(f) != 3 || !strings.HasPrefix(h, "C") {
				x.out.WriteString("\x02scp: protocol error: " + h + "\n")
				x.done, x.code = true, 1
				return
			}
			mode, e1 := strconv.ParseUint(f[0][1:], 8, 32)
			n, e2 := strconv.Atoi(f[1])
			if e1 != nil || e2 != nil || n < 0 || len(f[0]) != 5 {
				x.out.WriteString("\x02scp: protocol error: bad header\n")
				x.done, x.code = true, 1
				return
			}
			x.length = n
			if x.c.impost {
				x.out.WriteByte(0)
				x.state = 1
				continue
			}
			d, base := splitPath(x.path)
			dir := x.c.s.fs.get(d)
			if dir == nil || x.c.s.readOnly {
				x.remoteErr("scp: " + x.path + ": Permission denied")
				x.state = 3
				x.fail = "open"
				continue
			}
			node := dir.ents[base]
			if node == nil {
				node = x.c.s.fs.newInode(syscall.S_IFREG | uint32(mode)&0777)
				dir.ents[base] = node
			}
			node.data = nil
			x.node = node
			x.out.WriteByte(0)
			x.state = 1
		case 1: // data
			take := x.length - x.got
			if take > len(x.in) {
				take = len(x.in)
			}
			if take > 0 {
				b := x.in[:take]
				x.in = x.in[take:]
				x.got += take
				if x.node != nil && x.fail == "" {
					if x.c.s.full {
						b = b[:len(b)/2]
						x.fail = "full"
					}
					x.node.data = append(append([]byte(nil), x.node.data...), b...)
				}
			}
			if x.got < x.length {
				if x.inEOF {
					x.done, x.code = true, 1
				}
				return
			}
			x.state = 2
		case 2: // client's closing 0
			if len(x.in) == 0 {
				if x.inEOF {
					x.done, x.code = true, 1
				}
				return
			}
			x.in = x.in[1:]
			if x.c.s.rude != 0 && !x.c.impost {
				x.rudeSink()
				return
			}
			if x.fail != "" {
				x.remoteErr("scp: " + x.path + ": No space left on device")
				x.code = 1
			} else {
				x.out.WriteByte(0)
				x.c.s.uploads++
			}
			x.state = 4
		case 3: // refused: swallow what comes
			x.in = nil
			if x.inEOF {
				x.done, x.code = true, 1
			}
			return
		case 4: // next header or EOF
			if x.inEOF {
				x.done = true
				if x.code == 0 {
					x.code = x.c.s.exitCode
				}
			}
			return
		}
	}
}

func (x *srvExec) Read(b []byte) (int, error) {
	if err := x.c.step("sshread"); err != nil {
		return 0, io.EOF // a reset channel ends
	}
	if x.out.Len() == 0 {
		if x.done {
			return 0, io.EOF
		}
		x.c.p.stop("waits for ever for the remote scp")
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := x.out.Len()
	if x.c.s.frag {
		x.c.p.w.stats.fault("fragmented-read")
		k := 1 + int(hash2(x.c.p.w.seed^9, x.c.p.w.events)%uint64(1+x.c.s.maxRead))
		if n > k {
			n = k
		}
	}
	if n > len(b) {
		n = len(b)
	}
	return x.out.Read(b[:n])
}

func (x *srvExec) Exit() (int, bool) {
	if err := x.c.step("sshexit"); err != nil {
		return 0, false
	}
	if !x.done {
		if !x.inEOF {
			x.c.p.stop("waits for ever for the remote scp to exit")
		}
		x.inEOF = true
		x.pump()
	}
	if x.hung {
		return 0, false
	}
	return x.code, true
}

func (x *srvExec) Close() error {
	x.hangup()
	return nil
}
