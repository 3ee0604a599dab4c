package core

import (
	"encoding/json"
	"reflect"
	"time"
	"unicode/utf8"
)

// reduce shortens the texts (fields of type Src) of a failing case as long as
// the case keeps failing.
func (r *runner) reduce(raw json.RawMessage, limit time.Duration) json.RawMessage {
	deadline := time.Now().Add(limit)
	best := raw
	load := func() (interface{}, []reflect.Value) {
		c := r.p.New()
		if json.Unmarshal(best, c) != nil {
			return nil, nil
		}
		var srcs []reflect.Value
		findSrcs(reflect.ValueOf(c), &srcs)
		return c, srcs
	}
	_, srcs := load()
	for i := range srcs {
		for changed := true; changed; {
			changed = false
			c, srcs := load()
			if i >= len(srcs) {
				break
			}
			text := []rune(srcs[i].String())
			if !utf8.ValidString(srcs[i].String()) {
				break
			}
			for size := len(text); size >= 1; size /= 2 {
				for at := 0; at+size <= len(text); {
					if time.Now().After(deadline) {
						return best
					}
					try := string(text[:at]) + string(text[at+size:])
					srcs[i].SetString(try)
					b, err := json.Marshal(c)
					if err != nil {
						return best
					}
					fresh := r.p.New()
					if json.Unmarshal(b, fresh) == nil && r.eval(fresh).Failed() {
						best = b
						text = []rune(try)
						changed = true
						continue
					}
					at++
					if size > 8 {
						at += size / 4
					}
				}
			}
			srcs[i].SetString(string(text))
		}
	}
	return best
}

func findSrcs(v reflect.Value, out *[]reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			findSrcs(v.Elem(), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				findSrcs(v.Field(i), out)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			findSrcs(v.Index(i), out)
		}
	case reflect.String:
		if v.Type() == reflect.TypeOf(Src("")) && v.CanSet() {
			*out = append(*out, v)
		}
	}
}
