package verifsim

import (
	"fmt"
	"strings"
)

// GState is the generator's idea of the vault: it only steers which commands
// are worth typing, the reference model decides what they mean.
type GState struct {
	menus    bool // long password menus
	r        *Rand
	names    []string
	keys     map[string]map[string]string
	used     map[string]bool
	users    []string
	userPass []string
	multi    bool
	pass     string
	ctx      string
	n        int
	editor   string
	rich     bool   // exotic values
	tag      string // keeps values of different devices apart
	exact    bool   // no abbreviations
	pool     []string
}

func newGState(r *Rand) *GState {
	return &GState{r: r, keys: map[string]map[string]string{}, used: map[string]bool{}, pass: "hunter2 " + fmt.Sprint(r.N(1000)), rich: true}
}

var nameParts = []string{"gmail", "bank", "vpn", "work", "home", "jira", "aws", "wifi", "shop", "forum", "mail", "cloud", "Steam", "GitHub", "Router", "zoo", "ünïcode", "日本", "x", "a.b", "q-1"}

// nearName is much like n.
func nearName(r *Rand, n string) string {
	switch r.N(6) {
	case 0:
		return strings.ToUpper(n)
	case 1:
		return strings.ToLower(n)
	case 2:
		return n + r.pick([]string{"1", "s", "-", ".", "/x"})
	case 3:
		return r.pick([]string{"x", "/", "my"}) + n
	case 4:
		return strings.Title(n)
	}
	if rs := []rune(n); len(rs) > 1 {
		k := r.N(len(rs))
		return string(append(append([]rune(nil), rs[:k]...), rs[k+1:]...))
	}
	return n + n
}

func (g *GState) newName() string {
	if g.pool != nil {
		for _, i := range []int{0, 1, 2, 3} {
			n := g.r.pick(g.pool)
			if i == 3 {
				n += "1"
			}
			if !g.used[n] {
				g.used[n] = true
				return n
			}
		}
	}
	for {
		n := g.r.pick(nameParts)
		if len(g.names) > 0 && g.r.P(1, 8) {
			// one that is easily confused
			if n = nearName(g.r, g.r.pick(g.names)); n != "" && !strings.ContainsAny(n, " ") && !g.used[n] {
				g.used[n] = true
				return n
			}
			continue
		}
		if g.r.P(1, 2) {
			n += "/" + g.r.pick(nameParts)
		}
		if g.r.P(1, 8) {
			n += "/" + g.r.pick(nameParts)
		}
		if g.r.P(1, 3) || g.used[n] {
			n += fmt.Sprint(g.r.N(50))
		}
		if !g.used[n] {
			g.used[n] = true
			return n
		}
	}
}

func (r *Rand) pick(s []string) string { return s[r.N(len(s))] }

func (g *GState) word() string {
	const al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	n := 3 + g.r.N(10)
	b := make([]byte, n)
	for i := range b {
		b[i] = al[g.r.N(len(al))]
	}
	g.n++
	return g.tag + string(b)
}

// line makes a one-line value without surrounding blanks.
func (g *GState) line() string {
	r := g.r
	if !g.rich {
		return g.word()
	}
	switch r.N(14) {
	case 0:
		return g.word() + " " + g.word()
	case 1:
		return g.word() + "  " + g.word() + "   " + g.word()
	case 2:
		return g.word() + r.pick([]string{`"`, `\`, `%`, `,`, `'`, "`", `<&>`, `{}`, `[]`, `;`, `$HOME`, `%s%d`, `\n`, `\u0000`}) + g.word()
	case 3:
		return g.word() + r.pick([]string{"é", "ß", "日本語", "🔑", "\u2028", "\u00a0", "е́", "\ufeff"}) + g.word()
	case 4:
		return strings.Repeat(g.word(), 1+r.N(60))
	case 5:
		return r.pick([]string{"true", "false", "null", "0", "-1", "1e9"}) + g.word()
	case 6:
		return g.word() + "\t" + g.word()
	case 7:
		return "https://" + g.word() + ".example/" + g.word() + "?a=" + g.word()
	}
	return g.word()
}

// typed is a value that is typed at a prompt: blanks around it count.
func (g *GState) typed() string {
	v := g.line()
	if g.rich && g.r.P(1, 12) {
		switch g.r.N(3) {
		case 0:
			v = g.r.pick([]string{" ", "  ", "\t", "\u00a0"}) + v
		case 1:
			v += g.r.pick([]string{" ", "  ", "\t", "\u3000"})
		default:
			v = " " + v + " "
		}
	}
	return v
}

// almost is not quite s.
func almost(r *Rand, s string) string {
	rs := []rune(s)
	var v string
	switch k := r.N(7); {
	case k == 0:
		v = s + " "
	case k == 1:
		v = " " + s
	case k == 2:
		v = strings.ToUpper(s)
	case k == 3 && len(rs) > 1:
		v = string(rs[:len(rs)-1])
	case k == 4 && len(rs) > 1:
		v = string(rs[1:])
	case k == 5 && len(rs) > 1:
		rs[len(rs)-1]++
		v = string(rs)
	}
	if v == "" || v == s {
		v = s + "x"
	}
	return v
}

func (g *GState) text() string {
	var l []string
	for i, n := 0, 1+g.r.N(5); i < n; i++ {
		if i > 0 && g.r.P(1, 5) {
			l = append(l, "")
		}
		l = append(l, g.line())
	}
	t := strings.Join(l, "\n")
	if g.r.P(1, 2) {
		t += "\n"
	}
	switch g.r.N(14) {
	case 0:
		t = strings.ReplaceAll(t, "\n", "\r\n")
	case 1:
		t += g.r.pick([]string{"\r", "x\ry", "\x00", "a\x00b", "\v\f", " \t ", "\n\n\n", "\u0085", "\x7f"})
	}
	return t
}

func (g *GState) key() string {
	return g.r.pick([]string{"email", "user", "pass", "notes", "pin", "recovery", "Note", "ключ", "k-1", "a", "sync2"})
}

func (g *GState) some() string {
	if len(g.names) == 0 {
		return "nothing"
	}
	return g.names[g.r.N(len(g.names))]
}

// query is a way to name an entry: exactly, or abbreviated.
func (g *GState) query(name string) string {
	if g.exact || !g.r.P(1, 5) {
		return name
	}
	var out []rune
	for _, c := range name {
		if c == '/' || g.r.P(2, 3) {
			out = append(out, c)
		}
	}
	q := strings.Trim(string(out), "/")
	if q == "" {
		return name
	}
	return q
}

// manual answers the password menu with a chosen password.
func manual(p string) []Ans {
	return []Ans{{M: "u/l/n/b/e/", R: "m"}, {M: "enter new password", R: p}, {M: "verify password", R: p}}
}

func (g *GState) passAns() ([]Ans, string) {
	if g.menus {
		a, p := g.r.menuScript(8)
		return a, p
	}
	if g.r.P(1, 2) {
		return []Ans{{M: "u/l/n/b/e/", R: "y"}}, ""
	}
	p := g.typed()
	if g.r.P(1, 10) {
		w := g.line() + "x"
		if g.r.P(2, 3) {
			w = almost(g.r, p)
		}
		return append([]Ans{{M: "u/l/n/b/e/", R: "m"}, {M: "enter new password", R: p}, {M: "verify password", R: w}}, manual(p)...), p
	}
	return manual(p), p
}

// qa prefixes the arguments with a query unless an entry was entered.
func (g *GState) qa(name string, args ...string) (string, []string) {
	if g.ctx != "" {
		return strings.Join(args, " "), args
	}
	q := g.query(name)
	l := q
	if len(args) > 0 {
		l += " " + strings.Join(args, " ")
	}
	return l, append([]string{q}, args...)
}

func (g *GState) add() Op {
	n := g.newName()
	return g.addNamed(n)
}

func (g *GState) addNamed(n string) Op {
	g.used[n] = true
	pa, p := g.passAns()
	e, u := "", ""
	if g.r.P(2, 3) {
		e = g.typed()
	}
	if g.r.P(2, 3) {
		u = g.typed()
	}
	g.names = append(g.names, n)
	g.keys[n] = map[string]string{"pass": p, "email": e, "user": u}
	return Op{Line: "add " + n, Do: "add", A: []string{n}, Ans: append([]Ans{{M: "email: ", R: e}, {M: "user: ", R: u}}, pa...)}
}

func (g *GState) drop(n string) {
	for i, x := range g.names {
		if x == n {
			g.names = append(g.names[:i:i], g.names[i+1:]...)
			return
		}
	}
}

func (g *GState) set() Op {
	n := g.some()
	k := g.key()
	v := g.line()
	if g.r.P(1, 6) && k != "pass" {
		// typed over several lines
		var ans []Ans
		var lines []string
		for i, c := 0, g.r.N(4); i < c; i++ {
			l := g.typed()
			if g.r.P(1, 10) {
				l = g.r.pick([]string{" ", " .", ". ", "..", "\t", ". x"})
			}
			if i == 0 && g.r.P(1, 5) {
				ans = append(ans, Ans{"=> ", ""})
			}
			lines = append(lines, l)
			ans = append(ans, Ans{"=> ", l})
			if g.r.P(1, 4) {
				ans = append(ans, Ans{"=> ", ""})
			}
		}
		switch g.r.N(3) {
		case 0:
			ans = append(ans, Ans{"=> ", "."})
		case 1:
			ans = append(ans, Ans{"=> ", "^D"})
		default:
			ans = append(ans, Ans{"=> ", ""}, Ans{"=> ", ""})
		}
		l, a := g.qa(n, k)
		return Op{Line: "set " + l, Do: "set", A: a, Ans: ans}
	}
	if k == "pass" && g.r.P(1, 2) {
		pa, _ := g.passAns()
		l, a := g.qa(n, k)
		return Op{Line: "set " + l, Do: "set", A: a, Ans: pa}
	}
	if g.r.P(1, 8) {
		k, v = "url", "https://"+g.word()+".example/"+g.word()+"?q=a%20b&c=d#"+g.word()
	} else if g.r.P(1, 20) {
		k, v = "url", g.r.pick([]string{"foo", "mailto:x@y.example", "http:opaque", "://nothing", "www.example.com/a", "/a/b", "localhost:8080/x", "http://[::1", "a b://c", "HTTPS://X.example", "ftp://h", "x:///p", "http://%zz/"})
	} else if g.r.P(1, 12) {
		k, v = "totp", g.totpInput()
	} else if g.r.P(1, 15) {
		k = g.r.pick([]string{"name", "updated", "iv", "Salt", "mkey", "NAME"})
	} else if g.r.P(1, 12) {
		k = "labels"
		v = g.r.pick([]string{"red", "red,red", "red,blue,red", "old,,blue", "2fa,2fa,old", ",", "shared,Red", "x-y,x-y,x-y,red"})
	}
	if g.rich && k != "totp" && k != "url" && g.r.P(1, 12) {
		v = g.r.pick([]string{" ", "  ", " \t"}) + v
	}
	l, a := g.qa(n, k)
	return Op{Line: "set " + l + " " + v, Do: "set", A: append(a, v)}
}

func (g *GState) edit() Op {
	n := g.some()
	k := g.key()
	l, a := g.qa(n, k)
	e := &EditOp{Text: g.text()}
	switch g.r.N(10) {
	case 0:
		e.Mode = "rename"
	case 1:
		e.Mode = "none"
	case 2:
		e.Code = 1
	case 3:
		e.Text = ""
	case 4:
		e.Mode = "remove"
	case 5:
		if g.r.P(1, 2) {
			e.Text = "caf\ue0e9 " + e.Text // as another encoding has it
		}
	}
	return Op{Line: "edit " + l, Do: "edit", A: a, Edit: e}
}

func (g *GState) rm(confirm bool) Op {
	n := g.some()
	ans := Ans{M: "to proceed", R: n}
	if !confirm {
		ans.R = g.r.pick([]string{"", "no", "^D", "y", almost(g.r, n), almost(g.r, n), almost(g.r, n)})
	} else {
		g.drop(n)
		if g.ctx == n {
			g.ctx = ""
		}
	}
	return Op{Line: "rm " + n, Do: "rm", A: []string{n}, Ans: []Ans{ans}}
}

func (g *GState) mv() Op {
	n := g.some()
	to := g.newName()
	if g.r.P(1, 6) {
		to = g.some()
	} else if n != "nothing" {
		g.drop(n)
		g.names = append(g.names, to)
	}
	return Op{Line: "mv " + n + " " + to, Do: "mv", A: []string{n, to}}
}

func (g *GState) label() Op {
	n := g.some()
	l, a := g.qa(n)
	var ans []Ans
	for i, c := 0, g.r.N(4); i < c; i++ {
		x := g.r.pick([]string{"red", "blue", "old", "2fa", "日本", "shared", "x-y", "older", "re", "share", "x"})
		if g.r.P(1, 8) {
			x = g.r.pick([]string{"Upper", "two words", "red,blue", "blue,blue,old", ",", " ", "\t", " red", "blue ", "\u00a0", "Ünï", "." + "."})
		}
		ans = append(ans, Ans{"=> ", x})
	}
	ans = append(ans, Ans{"=> ", g.r.pick([]string{"", ".", "^D"})})
	return Op{Line: strings.TrimSpace("label " + l), Do: "label", A: a, Ans: ans}
}

func (g *GState) rmlabel() Op {
	n := g.some()
	l, a := g.qa(n, g.r.pick([]string{"red", "blue", "old", "2fa", "shared", "x-y", "older", "re", "share", "x"}))
	return Op{Line: "rmlabel " + l, Do: "rmlabel", A: a}
}

func (g *GState) rmk() Op {
	n := g.some()
	k := g.key()
	if g.r.P(1, 10) {
		k = g.r.pick([]string{"name", "updated", "totp", "labels", "url"})
	}
	l, a := g.qa(n, k)
	return Op{Line: "rmk " + l, Do: "rmk", A: a}
}

// mutation is a random change.
func (g *GState) mutation() Op {
	if len(g.names) == 0 {
		return g.add()
	}
	switch x := g.r.N(100); {
	case x < 25:
		return g.add()
	case x < 55:
		return g.set()
	case x < 63:
		if g.editor != "" {
			return g.edit()
		}
		return g.set()
	case x < 70:
		return g.rm(g.r.P(3, 4))
	case x < 78:
		if g.ctx != "" {
			return g.set()
		}
		return g.mv()
	case x < 86:
		return g.label()
	case x < 92:
		return g.rmlabel()
	default:
		return g.rmk()
	}
}

// read is a random command that changes nothing.
func (g *GState) read() Op {
	n := g.some()
	switch g.r.N(12) {
	case 0:
		if g.r.P(1, 2) {
			return Op{Line: "ls", Do: "ls"}
		}
		q := g.query(n)
		return Op{Line: "ls " + q, Do: "ls", A: []string{q}}
	case 1:
		a := []string{g.r.pick([]string{"red", "blue", "old", "shared", "older", "re", "share", "x", "d"})}
		for g.r.P(1, 3) {
			a = append(a, g.r.pick([]string{"2fa", "x-y", "日本", "red", "blue", "old"}))
		}
		return Op{Line: "labels " + strings.Join(a, " "), Do: "labels", A: a}
	case 2, 3, 4:
		l, a := g.qa(n)
		return Op{Line: strings.TrimSpace("show " + l), Do: "show", A: a}
	case 5, 6:
		l, a := g.qa(n, g.key())
		return Op{Line: "get " + l, Do: "get", A: a}
	case 7:
		l, a := g.qa(n, g.key())
		return Op{Line: "cp " + l, Do: "cp", A: a}
	case 8:
		c := g.r.pick([]string{"user", "pass", "email", "totp"})
		l, a := g.qa(n)
		return Op{Line: strings.TrimSpace(c + " " + l), Do: c, A: a}
	case 9:
		l, a := g.qa(n)
		return Op{Line: strings.TrimSpace("login " + l), Do: "login", A: a}
	case 10:
		l, a := g.qa(n)
		return Op{Line: strings.TrimSpace("dump " + l), Do: "dump", A: a}
	default:
		l, a := g.qa(n)
		return Op{Line: strings.TrimSpace("open " + l), Do: "open", A: a}
	}
}

// chdir enters or leaves an entry.
func (g *GState) chdir() Op {
	if g.ctx != "" || len(g.names) == 0 {
		g.ctx = ""
		return Op{Line: "cd", Do: "cd"}
	}
	n := g.some()
	g.ctx = n
	return Op{Line: "cd " + n, Do: "cd", A: []string{n}}
}

// ops makes a session's worth of commands; the context is left at the end.
func (g *GState) ops(n, readPct int) []Op {
	var out []Op
	for i := 0; i < n; i++ {
		switch {
		case g.r.P(1, 18):
			out = append(out, g.chdir())
		case g.r.N(100) < readPct:
			out = append(out, g.read())
		default:
			out = append(out, g.mutation())
		}
		if g.r.P(1, 30) {
			out = append(out, Op{Line: g.r.pick([]string{"", "help", "help sync", "nonsense", "set", "add", "mv a", "rm", "get", "show", "cp", "label", "rmlabel x", "labels", "rmk x", "edit x", "open", "   ", "help users"}), Do: "noop"})
			if last := &out[len(out)-1]; g.ctx != "" && (last.Line == "show" || last.Line == "open" || last.Line == "label" || last.Line == "edit x" || last.Line == "rmlabel x" || last.Line == "rmk x") {
				last.Line = "help"
			}
		}
	}
	g.ctx = ""
	return out
}
