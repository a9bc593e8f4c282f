//go:build go1.21

package main

import (
	"crypto/sha256"
	"fmt"
	"strconv"
	"strings"

	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	"github.com/cosmos/cosmos-sdk/types/bech32"
)

func isRepoFunc(f string) bool {
	return strings.Contains(f, "fdymylja/tmos/") && !strings.Contains(f, "/verifsim")
}

func shortFunc(f string) string {
	if i := strings.LastIndex(f, "/"); i >= 0 {
		return f[i+1:]
	}
	return f
}

const bech32Prefix = "test"

var keyCache = map[int]*secp256k1.PrivKey{}
var addrCache = map[int]string{}

// key returns the i-th private key of the simulated users.
func key(i int) *secp256k1.PrivKey {
	if k, ok := keyCache[i]; ok {
		return k
	}
	h := sha256.Sum256([]byte(fmt.Sprintf("simulated user %d", i)))
	h[0] &= 0x7f // within the group order
	k := &secp256k1.PrivKey{Key: h[:]}
	keyCache[i] = k
	return k
}

func addrOf(pub []byte) string {
	a, err := bech32.ConvertAndEncode(bech32Prefix, (&secp256k1.PubKey{Key: pub}).Address())
	if err != nil {
		panic(err)
	}
	return a
}

func addr(i int) string {
	if a, ok := addrCache[i]; ok {
		return a
	}
	a := addrOf(key(i).PubKey().Bytes())
	addrCache[i] = a
	return a
}

// lookalikes are ways to make a name which resembles another one.
var lookalikes = map[byte]func(a string) string{
	'u': strings.ToUpper,
	's': func(a string) string { return a + " " },
	'p': func(a string) string { return " " + a },
	'0': func(a string) string { return a + "\x00" },
	'n': func(a string) string { return a + "\n" },
	'x': func(a string) string { return a + "q" },
	'c': func(a string) string { return a[:len(a)-1] },
	'h': func(a string) string { return a[:len(a)/2] },
	'b': func(a string) string { return a[strings.LastIndex(a, "1")+1:] },
	'm': func(a string) string { return strings.ToUpper(a[:5]) + a[5:] },
	'/': func(a string) string { return a + "/" },
}

// name resolves a name expression: "@3" is the address of user 3, "#500x" is "x" 500 times,
// "~u@3" is a lookalike of the address of user 3, anything else stands for itself.
func name(e string) string {
	switch {
	case len(e) > 3 && e[0] == '~' && e[2] == '@' && lookalikes[e[1]] != nil:
		return lookalikes[e[1]](name(e[2:]))
	case strings.HasPrefix(e, "@"):
		if i, err := strconv.Atoi(e[1:]); err == nil {
			return addr(i)
		}
	case strings.HasPrefix(e, "#"):
		j := 1
		for j < len(e) && e[j] >= '0' && e[j] <= '9' {
			j++
		}
		if n, err := strconv.Atoi(e[1:j]); err == nil && j < len(e) {
			return strings.Repeat(e[j:], n)
		}
	}
	return e
}
