//go:build go1.18

package signer

import (
	"encoding/hex"

	"github.com/drone/drone-yaml/yaml"
)

func P_C09_update(data []byte, key Key) {
	docs, readable := yaml.DocsOf(string(data))
	text := signed(docs)
	rest := ""
	for _, d := range docs {
		if yaml.Head(d).Kind != "signature" {
			rest = rest + "---\n" + d
		}
	}
	out, err := SignUpdate(data, key)
	vEnsure("a short key is an error", len(key) >= 32 || err != nil)
	vEnsure("a file that cannot be read in full is not signed", readable || err != nil)
	vEnsure("an error only for a short key or a file that is not valid", err == nil || len(key) < 32 || !readable || broken(docs))
	vEnsure("nothing is written with an error", err == nil || len(out) == 0)
	vEnsure("the other documents in order, then one signature with their hmac", err != nil ||
		string(out) == rest+"---\nkind: signature\nhmac: "+hex.EncodeToString(mac(key, text))+"\n\n...\n")
}

func P_C09_write(data []byte, sum string) {
	docs, readable := yaml.DocsOf(string(data))
	rest := ""
	for _, d := range docs {
		if yaml.Head(d).Kind != "signature" {
			rest = rest + "---\n" + d
		}
	}
	out, err := WriteTo(data, sum)
	vEnsure("a file that cannot be read in full is an error", readable || err != nil)
	vEnsure("an error only for a file that is not valid", err == nil || !readable || broken(docs))
	vEnsure("the other documents in order, then one signature with the hmac given", err != nil ||
		string(out) == rest+"---\nkind: signature\nhmac: "+sum+"\n\n...\n")
}

func N_C09_roundtrip(text string, key Key) {
	docs, readable := yaml.DocsOf(text)
	b, err := SignUpdate([]byte(text), key)
	if err != nil {
		return
	}
	vEnsure("only a file read in full is signed", readable)
	after, readable := yaml.DocsOf(string(b))
	var rest []string
	for _, d := range docs {
		if yaml.Head(d).Kind != "signature" {
			rest = append(rest, d)
		}
	}
	vEnsure("the signed file has the same documents and one signature", readable && len(after) == len(rest)+1)
	for i := range rest {
		vEnsure("every other document is kept verbatim, in order", after[i] == rest[i])
	}
	vEnsure("the last document is the signature", yaml.Head(after[len(rest)]).Kind == "signature")
	ok, err := Verify(b, key)
	vEnsure("the signed file is verified", ok && err == nil)
	again, err := SignUpdate(b, key)
	vEnsure("signing again changes nothing", err == nil && string(again) == string(b))
	sum, err := Sign([]byte(text), key)
	w, err := WriteTo([]byte(text), sum)
	vEnsure("writing the signature gives the same file", err == nil && string(w) == string(b))
}
