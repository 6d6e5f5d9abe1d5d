package verifsim

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/enceve/crypto/camellia"
	"golang.org/x/crypto/cast5"
	"golang.org/x/crypto/scrypt"
)

// An independent reader and writer of the documented file format. It shares
// nothing with the code under test but the block ciphers.

type RTx struct {
	Time  int64  `json:"time,omitempty"`
	Kind  string `json:"kind,omitempty"`
	UUID  string `json:"uuid,omitempty"`
	Key   string `json:"key,omitempty"`
	Value string `json:"value,omitempty"`
}

type REntry map[string]string

// Vault is a decoded file.
type Vault struct {
	Version  uint              `json:"version,omitempty"`
	Snapshot map[string]REntry `json:"snapshot,omitempty"`
	Log      []RTx             `json:"log,omitempty"`

	users  []vaultUser
	iv     []byte
	salt   []byte
	key    []byte
	master []byte
	plain  []byte
}

type vaultUser struct{ hash, salt, iv, mkey []byte }

var (
	errVaultFormat = errors.New("not a vault")
	errVaultPass   = errors.New("wrong credentials")
)

type kdfKey struct{ p, s string }

var kdfCache = map[kdfKey][]byte{}

func refKDF(pass string, salt []byte) []byte {
	k := kdfKey{pass, string(salt)}
	if v, ok := kdfCache[k]; ok {
		return v
	}
	v, err := scrypt.Key([]byte(pass), salt, 524288, 8, 1, 80)
	if err != nil {
		harness("kdf: %v", err)
	}
	if len(kdfCache) > 4096 {
		kdfCache = map[kdfKey][]byte{}
	}
	kdfCache[k] = v
	return v
}

func refCiphers(key []byte) []cipher.Block {
	a, e1 := aes.NewCipher(key[:32])
	c, e2 := camellia.NewCipher(key[32:64])
	f, e3 := cast5.NewCipher(key[64:80])
	if e1 != nil || e2 != nil || e3 != nil {
		harness("ciphers")
	}
	return []cipher.Block{a, c, f}
}

func refUnwrap(key, iv, data []byte, pad bool) ([]byte, error) {
	cs := refCiphers(key)
	offs := []int{0, 16, 32, 40}
	d := append([]byte(nil), data...)
	for i := 2; i >= 0; i-- {
		bs := cs[i].BlockSize()
		if len(d) == 0 || len(d)%bs != 0 {
			return nil, errVaultPass
		}
		cipher.NewCBCDecrypter(cs[i], iv[offs[i]:offs[i+1]]).CryptBlocks(d, d)
		if pad {
			n := int(d[len(d)-1])
			if n < 1 || n > bs || n > len(d) {
				return nil, errVaultPass
			}
			for _, b := range d[len(d)-n:] {
				if int(b) != n {
					return nil, errVaultPass
				}
			}
			d = d[:len(d)-n]
		}
	}
	return d, nil
}

func refWrap(key, iv, data []byte, pad bool) []byte {
	cs := refCiphers(key)
	offs := []int{0, 16, 32, 40}
	d := append([]byte(nil), data...)
	for i := 0; i < 3; i++ {
		bs := cs[i].BlockSize()
		if pad {
			n := bs - len(d)%bs
			d = append(d, bytes.Repeat([]byte{byte(n)}, n)...)
		}
		cipher.NewCBCEncrypter(cs[i], iv[offs[i]:offs[i+1]]).CryptBlocks(d, d)
	}
	return d
}

// vaultHeader splits the unencrypted part.
func vaultHeader(b []byte) (v *Vault, headerLen int, err error) {
	if len(b) < 16 || string(b[:8]) != "blobpass" || string(b[8:12]) != "0001" {
		return nil, 0, errVaultFormat
	}
	n, e := strconv.Atoi(string(b[12:16]))
	if e != nil || n < 0 {
		return nil, 0, errVaultFormat
	}
	v = &Vault{}
	take := func(k int) []byte {
		if headerLen+k > len(b) {
			err = errVaultFormat
			return make([]byte, k)
		}
		x := b[headerLen : headerLen+k]
		headerLen += k
		return x
	}
	headerLen = 16
	if n == 0 {
		v.salt = take(32)
	}
	for i := 0; i < n && err == nil; i++ {
		v.users = append(v.users, vaultUser{take(32), take(32), take(40), take(80)})
	}
	v.iv = take(40)
	return v, headerLen, err
}

// openVault decodes b with the given credentials.
func openVault(b []byte, user, pass string) (*Vault, error) {
	v, hl, err := vaultHeader(b)
	if err != nil {
		return nil, err
	}
	var key []byte
	if len(v.users) == 0 {
		v.key = refKDF(pass, v.salt)
		key = v.key
	} else {
		h := sha256.Sum256([]byte(user))
		for _, u := range v.users {
			if bytes.Equal(u.hash, h[:]) {
				v.key = refKDF(pass, u.salt)
				m, err := refUnwrap(v.key, u.iv, u.mkey, false)
				if err != nil {
					return nil, err
				}
				v.master = m
				key = m
				break
			}
		}
		if key == nil {
			return nil, errVaultPass
		}
	}
	d, err := refUnwrap(key, v.iv, b[hl:], true)
	if err != nil {
		return nil, err
	}
	if len(d) < 64 {
		return nil, errVaultPass
	}
	h := sha512.New()
	h.Write(b[:hl])
	h.Write(d[64:])
	if !bytes.Equal(h.Sum(nil), d[:64]) {
		return nil, errVaultPass
	}
	v.plain = d[64:]
	dec := json.NewDecoder(bytes.NewReader(v.plain))
	if err := dec.Decode(v); err != nil {
		return nil, fmt.Errorf("contents: %v", err)
	}
	return v, nil
}

// writeVault encodes a single-user file.
func writeVault(r *Rand, pass string, v *Vault) []byte {
	salt, iv := randBytes(r, 32), randBytes(r, 40)
	hdr := append([]byte("blobpass00010000"), salt...)
	hdr = append(hdr, iv...)
	return sealVault(hdr, refKDF(pass, salt), iv, vaultJSON(v))
}

type refUser struct{ name, pass string }

// writeMulti encodes a multi-user file; user entries must be in the log
// already (see userEntries).
func writeMulti(r *Rand, users []vaultUser, master, iv []byte, v *Vault) []byte {
	return sealVault(multiHeader(users, iv), master, iv, vaultJSON(v))
}

func multiHeader(users []vaultUser, iv []byte) []byte {
	hdr := []byte(fmt.Sprintf("blobpass0001%04d", len(users)))
	for _, u := range users {
		hdr = append(hdr, u.hash...)
		hdr = append(hdr, u.salt...)
		hdr = append(hdr, u.iv...)
		hdr = append(hdr, u.mkey...)
	}
	return append(hdr, iv...)
}

func makeUser(r *Rand, name, pass string, master []byte) vaultUser {
	h := sha256.Sum256([]byte(name))
	salt, iv := randBytes(r, 32), randBytes(r, 40)
	return vaultUser{h[:], salt, iv, refWrap(refKDF(pass, salt), iv, master, false)}
}

func sealVault(hdr, key, iv, pt []byte) []byte {
	h := sha512.New()
	h.Write(hdr)
	h.Write(pt)
	d := append(h.Sum(nil), pt...)
	return append(hdr, refWrap(key, iv, d, true)...)
}

func vaultJSON(v *Vault) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		harness("%v", err)
	}
	return b
}

func randBytes(r *Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Next())
	}
	return b
}

func refUUID(r *Rand) string {
	b := randBytes(r, 16)
	b[6] = b[6]&0x0f | 0x40
	b[8] = b[8]&0x3f | 0x80
	h := hex.EncodeToString(b)
	return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}

// refReplay rebuilds the entries from a log.
func refReplay(log []RTx) (map[string]REntry, error) {
	m := map[string]REntry{}
	for i, t := range log {
		e := m[t.UUID]
		switch t.Kind {
		case "add":
			if e != nil {
				return nil, fmt.Errorf("transaction %d adds %s again", i, t.UUID)
			}
			m[t.UUID] = REntry{}
		case "del":
			if e == nil {
				return nil, fmt.Errorf("transaction %d deletes %s, which does not exist", i, t.UUID)
			}
			delete(m, t.UUID)
		case "setk", "delk":
			if e == nil {
				return nil, fmt.Errorf("transaction %d changes %s, which does not exist", i, t.UUID)
			}
			if t.Kind == "setk" {
				e[t.Key] = t.Value
			} else {
				delete(e, t.Key)
			}
		default:
			return nil, fmt.Errorf("transaction %d has kind %q", i, t.Kind)
		}
	}
	return m, nil
}

// canon renders entries for comparison, ignoring some keys.
func canon(m map[string]REntry, drop ...string) string {
	var b strings.Builder
	for _, u := range sortedKeys(m) {
		fmt.Fprintf(&b, "%s{", u)
		for _, k := range sortedKeys(m[u]) {
			skip := false
			for _, d := range drop {
				skip = skip || d == k
			}
			if !skip {
				fmt.Fprintf(&b, "%q=%q ", k, m[u][k])
			}
		}
		b.WriteString("} ")
	}
	return b.String()
}

// byName maps entry names to entries, dropping bookkeeping keys.
func byName(m map[string]REntry, drop ...string) (map[string]REntry, error) {
	out := map[string]REntry{}
	for _, u := range sortedKeys(m) {
		n, ok := m[u]["name"]
		if !ok {
			return nil, fmt.Errorf("entry %s has no name", u)
		}
		if out[n] != nil {
			return nil, fmt.Errorf("two entries are named %q", n)
		}
		e := REntry{}
		for k, v := range m[u] {
			e[k] = v
		}
		for _, d := range drop {
			delete(e, d)
		}
		out[n] = e
	}
	return out, nil
}

// checkVault verifies what must hold for every stored vault: the cached
// snapshot is the replay of the first Version transactions.
func checkVault(v *Vault) error {
	if int(v.Version) > len(v.Log) {
		return fmt.Errorf("snapshot version %d but only %d transactions", v.Version, len(v.Log))
	}
	m, err := refReplay(v.Log[:v.Version])
	if err != nil {
		return err
	}
	a, b := canon(m), canon(v.Snapshot)
	if a != b {
		return fmt.Errorf("stored snapshot differs from the replay of its first %d transactions:\nstored   %s\nreplayed %s", v.Version, b, a)
	}
	if _, err := refReplay(v.Log); err != nil {
		return err
	}
	return nil
}

func (v *Vault) state() map[string]REntry {
	m, err := refReplay(v.Log)
	if err != nil {
		return nil
	}
	return m
}

func userNames(st map[string]REntry) []string {
	var out []string
	for _, e := range st {
		if strings.HasPrefix(e["name"], "user/") {
			out = append(out, e["name"][5:])
		}
	}
	sort.Strings(out)
	return out
}

func isPrefix(a, b []RTx) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
