// Package core runs the property checks: generation and shrinking by rapid in
// several worker processes, merging of statistics, evidence, replay files.
package core

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"sort"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// A Prop is an executable property.
type Prop struct {
	ID string
	// Quick and Thorough are total numbers of generated cases.
	Quick, Thorough int
	// Rule says how cases are made and what makes one non-trivial.
	Rule string
	// Assumptions are listed in the evidence.
	Assumptions []string
	// New returns a pointer to a zero case.
	New func() interface{}
	// Gen draws a case (a pointer, as New returns).
	Gen func(t *rapid.T) interface{}
	// Check evaluates the property for a case.
	Check func(c interface{}, o *Out)
	// Race says that the check must run in a race-detecting build.
	Race bool
	// NeedsCLI says that the check runs the cljfmt binary.
	NeedsCLI bool
}

// Out collects what happened in one case.
type Out struct {
	Failure    string // empty if the property held
	NonTrivial bool
	Labels     []string
	Skipped    bool // outside the property's domain
}

func (o *Out) Fail(format string, args ...interface{}) {
	if o.Failure == "" {
		o.Failure = fmt.Sprintf(format, args...)
		if o.Failure == "" {
			o.Failure = "failed"
		}
	}
}

func (o *Out) Failed() bool { return o.Failure != "" }

func (o *Out) Label(format string, args ...interface{}) {
	if len(args) > 0 {
		format = fmt.Sprintf(format, args...)
	}
	for _, l := range o.Labels {
		if l == format {
			return
		}
	}
	o.Labels = append(o.Labels, format)
}

func (o *Out) LabelIf(b bool, s string) {
	if b {
		o.Label(s)
	}
}

// Skip marks the case as outside the domain.
func (o *Out) Skip(why string) {
	o.Skipped = true
	o.Label("outside domain: " + why)
}

// Src is a text that may be arbitrary bytes.
type Src string

func (s Src) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) {
		return json.Marshal(string(s))
	}
	return json.Marshal(map[string]string{"base64": base64.StdEncoding.EncodeToString([]byte(s))})
}

func (s *Src) UnmarshalJSON(b []byte) error {
	var str string
	if err := json.Unmarshal(b, &str); err == nil {
		*s = Src(str)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	d, err := base64.StdEncoding.DecodeString(m["base64"])
	*s = Src(d)
	return err
}

var registry = map[string]*Prop{}

func Register(p *Prop) {
	if registry[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	registry[p.ID] = p
}

func Lookup(id string) *Prop { return registry[id] }

func IDs() []string {
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}
