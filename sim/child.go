package verifsim

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"strings"
	"syscall"
)

// childFunc starts a simulated child program.
type childFunc func(p *Proc, args []string) *Child

// Child is a simulated child process. Programs that talk line by line set
// onInput; programs that do everything at once set run.
type Child struct {
	p       *Proc
	args    []string
	in      bytes.Buffer
	out     bytes.Buffer
	errOut  bytes.Buffer
	onInput func(c *Child)
	run     func(c *Child) int
	ran     bool
	code    int
	eof     bool // child closed its stdout
	hung    bool
}

func (p *Proc) spawn(path string, args []string) (*Child, error) {
	f := p.event("exec", path)
	p.checkFaultless()
	if f.Kind != "" {
		if e, ok := errnoOf[f.Kind]; ok {
			return nil, e
		}
	}
	base := path[strings.LastIndex(path, "/")+1:]
	fn := p.dev.programs[base]
	if fn == nil {
		return nil, syscall.ENOENT
	}
	if p.w.hooks.onExec != nil {
		p.w.hooks.onExec(p, args)
	}
	c := fn(p, args)
	if c == nil {
		return nil, syscall.ENOEXEC
	}
	c.p, c.args = p, args
	return c, nil
}

func (p *Proc) startProcess(argv0 string, argv []string) (int, error) {
	p.event("exec", argv0)
	p.checkFaultless()
	base := argv0[strings.LastIndex(argv0, "/")+1:]
	if p.dev.programs[base] == nil {
		return 0, syscall.ENOENT
	}
	if p.w.hooks.onExec != nil {
		p.w.hooks.onExec(p, argv)
	}
	if base == "xdg-open" && len(argv) > 1 {
		p.dev.opened = append(p.dev.opened, argv[1])
	}
	return 9000 + p.events, nil
}

type childIn struct{ c *Child }

func (i childIn) Write(b []byte) (int, error) {
	i.c.p.event("childw", "")
	i.c.p.checkFaultless()
	if i.c.eof {
		return 0, syscall.EPIPE
	}
	i.c.in.Write(b)
	if i.c.onInput != nil {
		i.c.onInput(i.c)
	}
	return len(b), nil
}
func (i childIn) Close() error { return nil }

type childOut struct {
	c *Child
	b *bytes.Buffer
}

func (o childOut) Read(b []byte) (int, error) {
	o.c.p.event("childr", "")
	o.c.p.checkFaultless()
	if o.c.run != nil && !o.c.ran {
		o.c.finish()
	}
	if o.b.Len() == 0 {
		if o.c.eof || o.c.ran {
			return 0, io.EOF
		}
		o.c.p.stop("waits for ever for output of a child process")
	}
	// pipes deliver in pieces
	n := o.b.Len()
	if n > 1 && hash2(o.c.p.w.seed^5, o.c.p.w.events)%3 == 0 {
		n = 1 + int(hash2(o.c.p.w.seed^6, o.c.p.w.events)%uint64(n-1))
	}
	if n > len(b) {
		n = len(b)
	}
	return o.b.Read(b[:n])
}
func (o childOut) Close() error { return nil }

func (c *Child) finish() {
	if c.ran {
		return
	}
	c.ran = true
	if c.run != nil {
		c.code = c.run(c)
	}
}

func (c *Child) Stdin() io.WriteCloser { return childIn{c} }
func (c *Child) Stdout() io.ReadCloser { return childOut{c, &c.out} }
func (c *Child) Stderr() io.ReadCloser { return childOut{c, &c.errOut} }
func (c *Child) Pid() int              { return 7000 + c.p.events }
func (c *Child) Wait() int {
	c.p.event("wait", "")
	c.p.checkFaultless()
	c.finish()
	return c.code
}

var errChild = errors.New("child")

// raw is what a text of a plan stands for: the private characters U+E080 to
// U+E0FF are single bytes that are no UTF-8.
func raw(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 0xE080 && c <= 0xE0FF {
			b.WriteByte(byte(c))
		} else {
			b.WriteRune(c)
		}
	}
	return b.String()
}

// editor is the simulated $EDITOR: it edits the file named by its last
// argument as the current op says.
func editor(p *Proc, args []string) *Child {
	return &Child{run: func(c *Child) int {
		a := p.agent
		if a.op < 0 || a.op >= len(a.s.Ops) || a.s.Ops[a.op].Edit == nil {
			return 1
		}
		e := a.s.Ops[a.op].Edit
		path := args[len(args)-1]
		n := p.dev.fs.get(path)
		p.w.probe("editor-run")
		p.w.now += 5e9
		if n == nil {
			return 1
		}
		p.editSeen(n)
		switch e.Mode {
		case "none":
		case "rename":
			d, name := splitPath(path)
			dir := p.dev.fs.get(d)
			nn := p.dev.fs.newInode(syscall.S_IFREG | 0600)
			nn.writeAt(0, []byte(raw(e.Text)))
			dir.ents[name] = nn
		case "remove":
			p.dev.fs.remove(path)
		default:
			n.truncate(0)
			n.writeAt(0, []byte(raw(e.Text)))
		}
		return e.Code
	}}
}

// editSeen remembers the inode of an edit's temporary file.
func (p *Proc) editSeen(n *Inode) {
	p.dev.w.edits = append(p.dev.w.edits, &editFile{p: p, n: n, mode: n.mode, content: string(n.data)})
}

type editFile struct {
	p       *Proc
	n       *Inode
	mode    uint32
	content string
}

// childPrograms are the programs a device can have installed.
var childPrograms = map[string]childFunc{
	"vim": editor, "nano": editor, "my-editor": editor, "emacs": editor, "code": editor, "atom": editor, "sublime": editor,
	"lpass":    lpass,
	"pinentry": pinentryProg, "pinentry-gnome3": pinentryProg, "pinentry-tty": pinentryProg, "my-pinentry": pinentryProg,
	"xdg-open": func(p *Proc, args []string) *Child {
		return &Child{run: func(c *Child) int {
			if len(args) > 0 {
				p.dev.opened = append(p.dev.opened, args[len(args)-1])
			}
			return 0
		}}
	},
}

// lpass prints the CSV export planned for the session (Session.Lpass); its exit
// status is Session.LpassCode.
func lpass(p *Proc, args []string) *Child {
	return &Child{run: func(c *Child) int {
		c.out.WriteString(raw(p.sess.Lpass))
		p.w.probe("lpass-run")
		return p.sess.LpassCode
	}}
}

// pinentryProg speaks the assuan protocol; Session.Pin selects how it behaves
// from its Session.PinAt-th start on.
func pinentryProg(p *Proc, args []string) *Child {
	c := &Child{}
	p.pins++
	mode := p.sess.Pin
	if p.pins < p.sess.PinAt {
		mode = ""
	}
	desc := ""
	opts := map[string]string{}
	fails := func() {
		p.agent.pin(desc, true)
		c.code = 2
		c.eof = true
		c.ran = true
	}
	say := func(s string) {
		c.out.WriteString(s)
		c.out.WriteByte('\n')
	}
	p.w.probe("pinentry-run")
	if mode != "" {
		p.w.stats.fault("pinentry-" + mode)
	}
	switch mode {
	case "rogue":
		say("HELLO")
		fails()
		return c
	case "silent":
		fails()
		return c
	}
	say("OK Pleased to meet you")
	c.onInput = func(c *Child) {
		for !c.eof {
			b := c.in.Bytes()
			i := bytes.IndexByte(b, '\n')
			if i < 0 {
				return
			}
			line := string(b[:i])
			c.in.Next(i + 1)
			cmd, rest, _ := strings.Cut(line, " ")
			switch cmd {
			case "SETDESC":
				desc = assuanUnescape(rest)
				if mode == "die-setup" {
					fails()
					return
				}
				say("OK")
			case "OPTION":
				if mode == "noopt" && strings.HasPrefix(rest, "ttytype") {
					say("ERR 83886254 Unknown option <Pinentry>")
					fails()
					continue
				}
				k, v, _ := strings.Cut(rest, " ")
				opts[k] = v
				say("OK")
			case "SETTITLE":
				say("OK")
			case "GETPIN":
				switch mode {
				case "die-getpin":
					fails()
					return
				case "die-half":
					c.out.WriteString("D hun")
					fails()
					return
				case "die-data":
					say("D hunter2")
					fails()
					return
				case "garbage":
					say("D x")
					say("ERR what")
					fails()
					return
				case "timeout":
					say("ERR 83886142 Timeout <Pinentry>")
					fails()
					return
				case "nodata":
					say("what?")
					fails()
					return
				}
				for o, e := range map[string]string{"ttytype": "TERM", "display": "DISPLAY"} {
					if opts[o] != p.env[e] {
						p.pinBad = fmt.Sprintf("is told %s %q but %s is %q", o, opts[o], e, p.env[e])
					}
				}
				pin, ok := p.agent.pin(desc, false)
				p.w.note("p%d pinentry %q -> %q %v", p.id, desc, pin, ok)
				if !ok {
					p.w.probe("pinentry-cancelled")
					say("ERR 83886179 Operation cancelled <Pinentry>")
					continue
				}
				p.w.probe("pinentry-answered")
				if pin != "" {
					say("D " + assuanEscape(pin))
				}
				say("OK")
			case "BYE":
				say("OK closing connection")
				c.ran = true
				c.eof = true
				if mode == "exit1" {
					c.code = 1
					p.agent.hist[len(p.agent.hist)-1].Reply = "^E"
				}
			default:
				p.w.probe("pinentry-unknown-command")
				say("ERR 83886355 Unknown IPC command <Pinentry>")
			}
		}
	}
	return c
}

// assuanEscape encodes data as a pinentry does: percent, CR and LF only.
func assuanEscape(s string) string {
	return strings.NewReplacer("%", "%25", "\r", "%0D", "\n", "%0A").Replace(s)
}

// assuanUnescape decodes what a pinentry is told.
func assuanUnescape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) {
			if x, err := hex.DecodeString(s[i+1 : i+3]); err == nil {
				b.Write(x)
				i += 2
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}
