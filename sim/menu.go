package verifsim

import (
	"math"
	"strconv"
	"strings"
	"unicode/utf8"
)

// the kinds of characters a generated password is made of
var passKinds = []struct{ key, chars string }{
	{"u", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"},
	{"l", "abcdefghijklmnopqrstuvwxyz"},
	{"n", "0123456789"},
	{"b", "!@#$%^&*"},
	{"e", "()_+-=<>,.{}[]\\|?/~\"'`"},
}

// longestPassword is the length up to which a password must be generated
const longestPassword = 4096

// Menu follows the password menu as its help text explains it.
type Menu struct {
	a     *Agent
	len   int
	least [5]int // -1 off
	shown string // the password displayed, "" if none can be made
	// every new password, with the entropy of its settings in bits
	passwords []string
	bits      []float64
}

func newMenu(a *Agent) *Menu { return &Menu{a: a, len: 32} }

// possible tells whether a password with these settings exists; unclear for
// extreme lengths.
func (m *Menu) possible() (ok, clear bool) {
	need, on := 0, 0
	for _, n := range m.least {
		if n > 0 {
			need += n
		}
		if n >= 0 {
			on++
		}
		if n > 1<<20 {
			return false, true
		}
	}
	switch {
	case m.len <= 0:
		return false, true
	case need > m.len, on == 0:
		return false, true
	case m.len > longestPassword:
		return true, false
	}
	return true, true
}

// conforms tells what is wrong with password s.
func (m *Menu) conforms(s string) string {
	if len(s) != m.len {
		return sprint(len(s)) + " characters instead of " + sprint(m.len)
	}
	count := [5]int{}
next:
	for _, c := range s {
		for k, kind := range passKinds {
			if strings.ContainsRune(kind.chars, c) {
				if m.least[k] < 0 {
					return "contains " + strconv.QuoteRune(c) + " although " + kind.key + " is off"
				}
				count[k]++
				continue next
			}
		}
		return "contains " + strconv.QuoteRune(c)
	}
	for k, kind := range passKinds {
		if count[k] < m.least[k] {
			return sprint(count[k]) + " instead of at least " + sprint(m.least[k]) + " of " + kind.key
		}
	}
	return ""
}

// entropy is a lower bound of the bits in a password of these settings.
func (m *Menu) entropy() float64 {
	bits, need := 0.0, 0
	chars := 0
	for k, n := range m.least {
		if n > 0 {
			bits += float64(n) * math.Log2(float64(len(passKinds[k].chars)))
			need += n
		}
		if n >= 0 {
			chars += len(passKinds[k].chars)
		}
	}
	if chars > 0 && m.len > need {
		bits += float64(m.len-need) * math.Log2(float64(chars)) / 2
	}
	return bits
}

// reply applies a reply to the settings; fresh tells whether a new password
// follows.
func (m *Menu) reply(s string) (fresh bool) {
	f := strings.Fields(s)
	if len(f) == 0 {
		return true
	}
	if f[0] == "c" || s == "?" {
		return false
	}
	for k, kind := range passKinds {
		if f[0] != kind.key {
			continue
		}
		if len(f) == 1 {
			if m.least[k] >= 0 {
				m.least[k] = -1
			} else {
				m.least[k] = 0
			}
		} else if n, err := strconv.Atoi(f[1]); err == nil {
			if n < 0 {
				n = -1
			}
			m.least[k] = n
		}
		return true
	}
	if n, err := strconv.Atoi(s); err == nil {
		m.len = n
	}
	return true
}

// walk follows the exchanges of one operation. bad, if given, receives
// complaints about what is displayed and copied.
func (m *Menu) walk(ex []Exchange, bad func(string, ...any)) (pass, end string) {
	a := m.a
	if bad == nil {
		bad = func(string, ...any) {}
	}
	var manual []string
	fresh, seen := true, false
	for i, e := range ex {
		switch {
		case strings.HasPrefix(e.Prompt, "u/l/n/b/e/"):
			manual = nil
			from := 0
			if i > 0 {
				from = ex[i-1].OutPos
			} else if e.Op >= 0 && e.Op < len(a.opOut) {
				from = a.opOut[e.Op]
			}
			shown, could := "", true
			for _, l := range strings.Split(stripANSI(string(a.p.out.Bytes()[from:e.OutPos])), "\n") {
				if i := strings.Index(l, "password: "); i >= 0 {
					shown = l[i+len("password: "):]
				}
				if strings.Contains(l, "Could not generate password") {
					could = false
				}
			}
			ok, clear := m.possible()
			switch {
			case !fresh && seen && shown != m.shown:
				bad("the displayed password changes from %q to %q without being asked to", m.shown, shown)
			case shown != "" && !ok:
				bad("a password %q for settings that cannot be met: %s", shown, m)
			case shown != "":
				if c := m.conforms(shown); c != "" {
					bad("password %q does not meet the settings %s: %s", shown, m, c)
				}
			case fresh && ok && clear:
				bad("no password is generated for the settings %s", m)
			case fresh && m.len != 0 && could && clear:
				bad("no message although no password can be generated: %s", m)
			}
			m.shown = shown
			if fresh && shown != "" {
				m.passwords = append(m.passwords, shown)
				m.bits = append(m.bits, m.entropy())
			}
			seen = true
			switch e.Reply {
			case "^D", "^C", "^E":
				return "", e.Reply
			case "y":
				if m.shown != "" {
					return m.shown, "y"
				}
				fresh = true
			case "m":
				fresh = true
			default:
				fresh = m.reply(e.Reply)
				if f := strings.Fields(e.Reply); len(f) == 1 && f[0] == "c" && m.shown != "" && i+1 < len(ex) {
					sets := a.p.dev.clipSets[e.Clip:ex[i+1].Clip]
					if a.noClip(e.Op) {
						out := stripANSI(string(a.p.out.Bytes()[e.OutPos:ex[i+1].OutPos]))
						if !strings.Contains(out, "Failed to copy") {
							bad("the clipboard fails but nothing is said: %q", out)
						}
					} else if len(sets) != 1 || sets[0] != m.shown {
						bad("copying %q puts %q on the clipboard", m.shown, sets)
					}
				}
			}
		case e.Hidden:
			if e.Reply == "^D" || e.Reply == "^C" || e.Reply == "^E" {
				return "", e.Reply
			}
			manual = append(manual, e.Reply)
			if len(manual) == 2 && manual[0] == manual[1] && utf8.ValidString(manual[0]) {
				return manual[0], "m"
			}
		}
	}
	return "", ""
}

func (m *Menu) String() string {
	s := "length " + sprint(m.len)
	for k, n := range m.least {
		s += " " + passKinds[k].key
		switch {
		case n < 0:
			s += " off"
		case n > 0:
			s += " at least " + sprint(n)
		}
	}
	return s
}
