//go:build go1.18

package signer

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/hex"

	goyaml "github.com/buildkite/yaml"
	"github.com/drone/drone-yaml/yaml"
)

// signed: the text a signature covers, every document but the signatures.
func signed(docs []string) string {
	s := ""
	for _, d := range docs {
		if yaml.Head(d).Kind != "signature" {
			s = s + d
		}
	}
	return s
}

func broken(docs []string) bool {
	return vExists(len(docs), func(i int) bool { return yaml.Invalid(docs[i]) })
}

func mac(key Key, text string) []byte {
	h := hmac.New(sha256.New, key)
	h.Write([]byte(text))
	return h.Sum(nil)
}

// carried: the signature that the first signature document carries.
func carried(docs []string) ([]byte, bool) {
	for _, d := range docs {
		if yaml.Head(d).Kind == "signature" {
			s := yaml.Signature{}
			if goyaml.Unmarshal([]byte(d), &s) != nil {
				return nil, false
			}
			m, err := hex.DecodeString(s.Hmac)
			return m, err == nil
		}
	}
	return nil, false
}

