package yaml

import (
	"bufio"
	"strings"

	"github.com/buildkite/yaml"
)

// DocsOf: the documents of a manifest file, as text, and whether the file
// could be read.  A line that starts with --- begins a document, a line that
// starts with ... ends the file, and every other line belongs to the current
// document.
func DocsOf(text string) ([]string, bool) {
	var done []string
	cur, open := "", false
	lines := bufio.NewScanner(strings.NewReader(text))
	for lines.Scan() {
		line := lines.Text()
		if strings.HasPrefix(line, "---") {
			if open {
				done = append(done, cur)
			}
			cur, open = "", true
			continue
		}
		if strings.HasPrefix(line, "...") {
			if !open {
				cur, open = "", true
			}
			break
		}
		cur, open = cur+line+"\n", true
	}
	if open {
		done = append(done, cur)
	}
	return done, lines.Err() == nil
}

// Invalid: the document is not valid yaml.
func Invalid(doc string) bool { return yaml.Unmarshal([]byte(doc), &RawResource{}) != nil }

// Head: the attributes that identify a document.
func Head(doc string) RawResource {
	h := RawResource{}
	yaml.Unmarshal([]byte(doc), &h)
	return h
}
