//go:build go1.18

package signer

import (
	"crypto/hmac"
	"encoding/hex"
	"strings"

	"github.com/drone/drone-yaml/yaml"
)

func P_C08_sign(data []byte, key Key) {
	docs, readable := yaml.DocsOf(string(data))
	text := signed(docs)
	got, err := Sign(data, key)
	vEnsure("a short key is an error", len(key) >= 32 || err != nil)
	vEnsure("a file that cannot be read in full is not signed", readable || err != nil)
	vEnsure("an error only for a short key or a file that is not valid", err == nil || len(key) < 32 || !readable || broken(docs))
	vEnsure("no signature with an error", err == nil || got == "")
	vEnsure("the signature is the hmac of every document that is no signature", err != nil || got == hex.EncodeToString(mac(key, text)))
}

func P_C08_verify(data []byte, key Key) {
	docs, readable := yaml.DocsOf(string(data))
	text := signed(docs)
	have, found := carried(docs)
	ok, err := Verify(data, key)
	vEnsure("an error only for a short key or a file that is not valid", err == nil || len(key) < 32 || !readable || broken(docs))
	vEnsure("nothing is verified with an error", err == nil || !ok)
	vEnsure("nothing is verified without a signature", found || !ok)
	vEnsure("a short key is never verified", len(key) >= 32 || !ok)
	vEnsure("a short key is reported where there is a signature to check", len(key) >= 32 || !found || err != nil)
	vEnsure("verified exactly when the signature is that of the other documents", err != nil || ok == (found && hmac.Equal(have, mac(key, text))))
}

// others: the documents that are no signatures.
func others(text string) ([]string, bool) {
	docs, readable := yaml.DocsOf(text)
	var out []string
	for _, d := range docs {
		if yaml.Invalid(d) {
			return nil, false
		}
		if yaml.Head(d).Kind != "signature" {
			out = append(out, d)
		}
	}
	return out, readable
}

func same(a, b []string) bool {
	for i := range a {
		if len(a) != len(b) || a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}

// N_C08_tamper: a signed file in which the text at one place is replaced.
// Moving a document boundary, or adding or removing an empty document,
// keeps the signature; that is a known finding with a harness of its own.
func N_C08_tamper(text string, key Key, at int, put string) {
	b, err := SignUpdate([]byte(text), key)
	if err != nil {
		return
	}
	before, ok := others(string(b))
	vEnsure("a signed file is verified", ok)
	v, err := Verify(b, key)
	vEnsure("a signed file is verified", err == nil && v)
	i := at % (len(b) + 1)
	s := string(b[:i]) + put + strings.TrimPrefix(string(b[i:]), "\n")
	after, ok := others(s)
	if !ok || strings.Join(before, "") == strings.Join(after, "") {
		return
	}
	v, err = Verify([]byte(s), key)
	vEnsure("a file whose documents have changed is not verified", !v)
	other := append(Key("x"), key...)
	v, err = Verify(b, other)
	vEnsure("another key does not verify", !v)
}

func N_KC08_boundary(text string, key Key, at int) {
	b, err := SignUpdate([]byte(text), key)
	if err != nil {
		return
	}
	before, _ := others(string(b))
	lines := strings.SplitAfter(string(b), "\n")
	at = at % len(lines)
	if !strings.HasPrefix(lines[at], "---") || at == 0 {
		return
	}
	s := strings.Join(lines[:at], "") + strings.Join(lines[at+1:], "")
	after, ok := others(s)
	v, err := Verify([]byte(s), key)
	vEnsure("a file whose documents have changed is not verified", !v || !ok || err != nil || same(before, after))
}
