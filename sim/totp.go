package verifsim

import (
	"crypto/hmac"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"hash"
	"net/url"
	"strconv"
	"strings"
)

// An independent implementation of RFC 6238 for otpauth addresses.

type refOTP struct {
	secret []byte
	period int64
	digits int
	h      func() hash.Hash
}

func refBase32(s string) ([]byte, bool) {
	s = strings.TrimRight(strings.ToUpper(strings.TrimSpace(s)), "=")
	if s == "" {
		return nil, false
	}
	var out []byte
	acc, bits := 0, 0
	for _, c := range s {
		v := strings.IndexRune("ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", c)
		if v < 0 {
			return nil, false
		}
		acc, bits = acc<<5|v, bits+5
		if bits >= 8 {
			bits -= 8
			out = append(out, byte(acc>>bits))
			acc &= 1<<bits - 1
		}
	}
	switch len(s) % 8 {
	case 1, 3, 6:
		return nil, false
	}
	return out, true
}

// parseOTP understands a stored two-factor address. ok is false when no code
// can be made from it.
func parseOTP(uri string) (k refOTP, ok bool) {
	u, err := url.Parse(strings.TrimSpace(uri))
	if err != nil || u.Scheme != "otpauth" || u.Host != "totp" {
		return k, false
	}
	q := u.Query()
	if k.secret, ok = refBase32(q.Get("secret")); !ok {
		return k, false
	}
	k.period, k.digits, k.h = 30, 6, sha1.New
	if p := q.Get("period"); p != "" {
		n, err := strconv.ParseInt(p, 10, 32)
		if err != nil || n <= 0 {
			return k, false
		}
		k.period = n
	}
	switch q.Get("digits") {
	case "", "6":
	case "8":
		k.digits = 8
	default:
		return k, false
	}
	switch strings.ToUpper(q.Get("algorithm")) {
	case "", "SHA1":
	case "SHA256":
		k.h = sha256.New
	case "SHA512":
		k.h = sha512.New
	default:
		return k, false
	}
	return k, true
}

// code at a unix time in nanoseconds.
func (k refOTP) code(ns int64) string {
	sec := ns / 1e9
	c := uint64(sec / k.period)
	m := hmac.New(k.h, k.secret)
	var b [8]byte
	for i := range b {
		b[i] = byte(c >> (8 * (7 - i)))
	}
	m.Write(b[:])
	s := m.Sum(nil)
	o := s[len(s)-1] & 15
	v := uint32(s[o]&0x7f)<<24 | uint32(s[o+1])<<16 | uint32(s[o+2])<<8 | uint32(s[o+3])
	mod := uint32(1)
	for i := 0; i < k.digits; i++ {
		mod *= 10
	}
	return fmt.Sprintf("%0*d", k.digits, v%mod)
}

// between lists the codes valid at some time of an interval.
func (k refOTP) between(from, to int64) []string {
	var out []string
	for t := from; ; t += k.period * 1e9 {
		if t > to {
			t = to
		}
		out = append(out, k.code(t))
		if t == to {
			return out
		}
	}
}

// totpInput is what a user types to set up a two-factor key.
func (g *GState) totpInput() string {
	const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	r := g.r
	n := r.pickInt(16, 16, 32, 26, 8, 52, 103)
	b := make([]byte, n)
	for i := range b {
		b[i] = al[r.N(len(al))]
	}
	sec := string(b)
	switch r.N(12) {
	case 0:
		sec = strings.ToLower(sec)
	case 1:
		for len(sec)%8 != 0 {
			sec += "="
		}
	case 2:
		return r.pick([]string{"", "not-base32!", sec[:len(sec)-1] + "1", sec[:4] + " " + sec[4:], "A", "otpauth://totp/x", "otpauth://totp/x?secret=", "otpauth://totp/x?secret=01",
			"otpauth://hotp/x?counter=1&secret=" + sec, "otpauth://totp/%zz?secret=" + sec, "otpauth://[::1?secret=" + sec, "otpauth://totp/x?digits=7&secret=" + sec,
			"otpauth://totp/x?period=0&secret=" + sec, "otpauth://totp/x?period=x&secret=" + sec, "otpauth://totp/x?algorithm=MD5&secret=" + sec})
	}
	if r.P(1, 2) {
		return sec
	}
	u := "otpauth://totp/" + r.pick([]string{"x", "Example:alice@example.com", "Big%20Corp:me", ""}) + "?secret=" + url.QueryEscape(sec)
	if r.P(1, 3) {
		u += "&issuer=" + g.word()
	}
	if r.P(1, 2) {
		u += fmt.Sprint("&period=", r.pickInt(15, 30, 60, 90, 3600))
	}
	if r.P(1, 2) {
		u += fmt.Sprint("&digits=", r.pickInt(6, 8))
	}
	if r.P(1, 2) {
		u += "&algorithm=" + r.pick([]string{"SHA1", "SHA256", "SHA512", "sha1", "sha256"})
	}
	return u
}

func (r *Rand) pickInt(s ...int) int { return s[r.N(len(s))] }
