package verifsim

import (
	"errors"
	"io"
	"regexp"
	"runtime"
	"strings"

	"github.com/aarondl/readline"
)

// Ans answers a nested prompt. M is matched against the prompt without colour
// codes: "=text" means equal, otherwise contained. R is the reply; "^D" and
// "^C" are the keys.
type Ans struct {
	M string `json:"m"`
	R string `json:"r"`
}

// Op is one line typed at the main prompt, with the answers to what it asks.
type Op struct {
	Line string `json:"line"`
	Ans  []Ans  `json:"ans,omitempty"`
	// harness-side meaning, for the reference model
	Do   string   `json:"do,omitempty"`
	A    []string `json:"a,omitempty"`
	Edit *EditOp  `json:"edit,omitempty"`
	Wait int64    `json:"wait,omitempty"` // simulated ns before typing it
	Slow int64    `json:"slow,omitempty"` // simulated ns before each answer
}

// EditOp scripts the simulated editor.
type EditOp struct {
	Text string `json:"text"`
	Code int    `json:"code,omitempty"`
	Mode string `json:"mode,omitempty"` // "" in place, "rename" write a new file over it, "remove", "none", "backup"
}

// Session is one run of the program on one device.
type Session struct {
	Dev       int               `json:"dev"`
	Args      []string          `json:"args,omitempty"`
	Env       map[string]string `json:"env,omitempty"`
	User      string            `json:"user,omitempty"`
	Pass      string            `json:"pass"`
	Ops       []Op              `json:"ops"`
	Def       []Ans             `json:"def,omitempty"` // answers used whenever no op answer fits
	Rnd       string            `json:"rnd,omitempty"`
	Gap       int64             `json:"gap,omitempty"`  // time passing before the session
	Jump      int64             `json:"jump,omitempty"` // device clock jump before the session
	NoWait    bool              `json:"nowait,omitempty"`
	Tabs      int               `json:"tabs,omitempty"`
	Faults    []Fault           `json:"faults,omitempty"`
	Role      string            `json:"role,omitempty"`
	Lpass     string            `json:"lpass,omitempty"` // what the lastpass client prints
	LpassCode int               `json:"lpasscode,omitempty"`
	Pin       string            `json:"pin,omitempty"`   // how the pinentry program behaves
	PinAt     int               `json:"pinat,omitempty"` // from which question on it behaves so
	Start     []Ans             `json:"start,omitempty"` // answers before the first main prompt, each used once
}

// Exchange is one prompt and its reply.
type Exchange struct {
	Prompt string
	Reply  string
	Hidden bool
	Op     int // -1 before the first main prompt
	Main   bool
	OutPos int
	Clip   int   // clipboard writes before it
	At     int64 // device time of the reply
	Auto   bool  // not from the script: default or fallback
	Pin    bool  // asked by the pinentry program
}

// Agent is the simulated user of one process.
type Agent struct {
	p       *Proc
	s       *Session
	op      int
	used    []bool
	nested  int
	hist    []Exchange
	prompts []string // main prompt of op i
	opOut   []int    // output position where op i started
	opClip  []int    // clipboard writes before op i
	opOpen  []int    // browser launches before op i
	opTime  []int64  // device time when op i was typed
	opEnd   []int64  // device time when op i was over
	opShown []int64  // device time when the prompt for op i appeared
	states  []epoch
	shownAt int64
	endPos  int
	lost    map[int]bool // operations whose clipboard writes failed
	unclear bool         // the clipboard could not be cleared
	endTime int64
	endClip int
	tabs    int
}

var ansiRE = regexp.MustCompile("\x1b\\[[0-9;]*m")

func stripANSI(s string) string { return ansiRE.ReplaceAllString(s, "") }

// promptEntry is the entry a main prompt shows as entered.
func promptEntry(pr string) string {
	if _, e, ok := strings.Cut(pr, "):"); ok {
		return strings.TrimSuffix(e, "> ")
	}
	return ""
}

func isMain(pr string) bool {
	return strings.HasPrefix(pr, "(") && strings.HasSuffix(pr, "> ") && strings.Contains(pr, ")")
}

const maxNested = 80

func (a Ans) fits(pr string) bool {
	if strings.HasPrefix(a.M, "=") {
		return pr == a.M[1:]
	}
	return strings.Contains(pr, a.M)
}

func (p *Proc) prompt(inst *readline.Instance, prompt string, hidden bool) (string, error) {
	p.event("prompt", "")
	if p.dead {
		runtime.Goexit()
	}
	w := p.w
	w.stats.Prompts++
	p.agent.shownAt = p.dev.time()
	think := int64(hash2(w.seed^77, w.events)%8000) * 1e6
	if p.agent.s.NoWait {
		think = 0
	}
	w.now += think
	pr := stripANSI(prompt)
	reply := p.agent.answer(pr, hidden)
	w.note("p%d prompt %q -> %q", p.id, pr, reply)
	switch reply {
	case "^D":
		return "", io.EOF
	case "^C":
		return "", readline.ErrInterrupt
	case "^E":
		return "", errors.New("input/output error")
	}
	if p.agent.tabs > 0 && inst.Config.AutoComplete != nil && !hidden && isMain(pr) {
		r := []rune(reply)
		n := len(r) * (1 + p.agent.tabs%3) / 3
		inst.Config.AutoComplete.Do(r[:n], n)
		p.agent.tabs--
	}
	return reply, nil
}

func (a *Agent) answer(pr string, hidden bool) string {
	p := a.p
	ex := Exchange{Prompt: pr, Hidden: hidden, OutPos: p.out.Len(), Op: a.op, Clip: len(p.dev.clipSets)}
	defer func() {
		ex.At = p.dev.time()
		a.hist = append(a.hist, ex)
	}()
	if isMain(pr) {
		if a.op >= 0 && a.op < len(a.s.Ops) {
			a.opEnd = append(a.opEnd, p.dev.time())
		}
		ex.Main = true
		a.op++
		ex.Op = a.op
		a.nested = 0
		if a.op >= len(a.s.Ops) {
			if a.endPos < 0 {
				a.endPos = p.out.Len()
				a.endTime = p.dev.time()
				a.endClip = len(p.dev.clipSets)
			}
			ex.Reply = "^D"
			ex.Auto = true
			if a.op > len(a.s.Ops)+3 {
				p.stop("end of input at the main prompt does not end the session")
			}
			return ex.Reply
		}
		op := &a.s.Ops[a.op]
		p.w.now += op.Wait
		a.used = make([]bool, len(op.Ans))
		a.prompts = append(a.prompts, pr)
		a.opOut = append(a.opOut, p.out.Len())
		a.opClip = append(a.opClip, len(p.dev.clipSets))
		a.opOpen = append(a.opOpen, len(p.dev.opened))
		a.opTime = append(a.opTime, p.dev.time())
		a.opShown = append(a.opShown, a.shownAt)
		p.w.stats.Commands++
		ex.Reply = op.Line
		return ex.Reply
	}
	a.nested++
	if a.op >= 0 && a.op < len(a.s.Ops) {
		p.w.now += a.s.Ops[a.op].Slow
	}
	limit := maxNested + len(a.s.Start)
	if a.op >= 0 && a.op < len(a.s.Ops) {
		limit += len(a.s.Ops[a.op].Ans)
	}
	if a.nested > limit {
		p.stop("question repeated without end: " + pr)
	}
	if a.op < 0 {
		if a.used == nil {
			a.used = make([]bool, len(a.s.Start))
		}
		for i, x := range a.s.Start {
			if !a.used[i] && x.fits(pr) {
				a.used[i] = true
				ex.Reply = x.R
				return ex.Reply
			}
		}
	}
	if a.op >= 0 && a.op < len(a.s.Ops) {
		for i, x := range a.s.Ops[a.op].Ans {
			if !a.used[i] && x.fits(pr) {
				a.used[i] = true
				ex.Reply = x.R
				return ex.Reply
			}
		}
	}
	ex.Auto = true
	for _, x := range a.s.Def {
		if x.fits(pr) {
			ex.Reply = x.R
			return ex.Reply
		}
	}
	if f := p.w.hooks.answer; f != nil {
		if r, ok := f(p, pr); ok {
			ex.Reply = r
			return ex.Reply
		}
	}
	switch {
	case len(a.hist) > 0 && a.hist[len(a.hist)-1].Prompt == pr && a.hist[len(a.hist)-1].Auto && hidden:
		ex.Reply = "^D" // the answer was not accepted
	case strings.HasSuffix(pr, "passphrase: "):
		ex.Reply = a.s.Pass
	case strings.HasSuffix(pr, " user: "):
		ex.Reply = a.s.User
		if ex.Reply == "" {
			ex.Reply = "^D"
		}
	case strings.Contains(pr, "press enter"):
		ex.Reply = ""
	case strings.Contains(pr, "(y/N)"), strings.Contains(pr, "(y/n)"):
		ex.Reply = "n"
	default:
		ex.Reply = "^D"
	}
	return ex.Reply
}

// pin answers a question of the pinentry program. Cancelling it counts as an
// empty answer, and if the program fails, the question does too.
func (a *Agent) pin(desc string, fails bool) (string, bool) {
	if fails {
		a.hist = append(a.hist, Exchange{Prompt: desc, Reply: "^E", Hidden: true, Op: a.op, OutPos: a.p.out.Len(), Clip: len(a.p.dev.clipSets), Pin: true})
		return "", false
	}
	r := raw(a.answer(desc, true))
	e := &a.hist[len(a.hist)-1]
	e.Pin = true
	e.Reply = r
	if r == "^D" || r == "^C" {
		e.Reply = ""
		return "", false
	}
	return r, true
}

// gaveUp tells that a question got no answer.
func gaveUp(s string) bool { return s == "^C" || s == "^D" || s == "^E" }

// output of op i, colours removed.
func (a *Agent) outOf(i int) string {
	if i >= len(a.opOut) {
		return ""
	}
	end := a.p.out.Len()
	if i+1 < len(a.opOut) {
		end = a.opOut[i+1]
	} else if a.endPos >= 0 {
		end = a.endPos
	}
	return stripANSI(string(a.p.out.Bytes()[a.opOut[i]:end]))
}

// opUntil is a device time at which operation i was over.
func (a *Agent) opUntil(i int) int64 {
	switch {
	case i < len(a.opEnd):
		return a.opEnd[i]
	case a.endTime != 0:
		return a.endTime
	}
	return a.opTime[i] + 3600e9
}

// opDone reports whether op i ran to the next main prompt.
func (a *Agent) opDone(i int) bool {
	return i+1 < len(a.opOut) || a.endPos >= 0 && i < len(a.opOut)
}

// startup is what was printed before the first main prompt.
func (a *Agent) startup() string {
	end := a.p.out.Len()
	if len(a.opOut) > 0 {
		end = a.opOut[0]
	} else if a.endPos >= 0 {
		end = a.endPos
	}
	return stripANSI(string(a.p.out.Bytes()[:end]))
}

func (a *Agent) reachedMain() bool { return len(a.opOut) > 0 || a.endPos >= 0 }

// inOp returns the exchanges that belong to op i.
func (a *Agent) inOp(i int) []Exchange {
	var out []Exchange
	for _, e := range a.hist {
		if e.Op == i && !e.Main {
			out = append(out, e)
		}
	}
	return out
}

// openedIn returns the links operation i handed to the browser.
func (a *Agent) openedIn(i int) []string {
	all := a.p.dev.opened
	if i+1 < len(a.opOpen) {
		all = all[:a.opOpen[i+1]]
	}
	return all[a.opOpen[i]:]
}

// clipLost records that the clipboard refused a value.
func (a *Agent) clipLost(s string) {
	if a.lost == nil {
		a.lost = map[int]bool{}
	}
	if s == "" {
		a.unclear = true
	}
	a.lost[a.op] = true
}

// noClip tells whether the clipboard failed in operation i.
func (a *Agent) noClip(i int) bool { return a.p.dev.clipErr || a.lost[i] }
