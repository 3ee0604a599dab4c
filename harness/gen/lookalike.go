package gen

import (
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// specialHead finds the names that give the list (or vector) they head a
// meaning to the formatter, an option of a library, or the like.
var specialHead = regexp.MustCompile(`([(\[]|\s)(:?(?:ns|require-macros|require|use|import|refer-macros|refer|as|only|all|gen-class|refer-clojure|load|defn-|defn|defmethod|defmulti|defmacro|def|if-not|if-let|if-some|if|letfn|let|for|doseq|cond->>|cond->|condp|cond|case|some->|->>|->|comment|deftype|defrecord|reify|loop|when|fn|>>))([\s)\]])`)

// LookAlike gives one of the special names in a text a name that resembles it
// but doesn't have its meaning.
func LookAlike(t *rapid.T, src string) string {
	all := specialHead.FindAllStringSubmatchIndex(src, -1)
	if len(all) == 0 {
		return src
	}
	k := Int(t, len(all))
	if Pct(t, 50) {
		k = 0
	}
	m := all[k]
	return src[:m[4]] + lookAlike(t, src[m[4]:m[5]]) + src[m[5]:]
}

func lookAlike(t *rapid.T, name string) string {
	colon := ""
	if strings.HasPrefix(name, ":") {
		colon, name = ":", name[1:]
	}
	if hot(t, 60) {
		w := Word(t)
		if colon == "" {
			return w
		}
		return colon + strings.TrimPrefix(w, ":")
	}
	switch Weighted(t, 5, 4, 3, 2, 2) {
	case 0: // in a namespace
		name = Pick(t, "s", "my", "clojure.core", "x.y", "a", "schema.core", name, "c", "cljs.core", "t", "core", "m", "p", "st", "u") + "/" + name
	case 1: // with something after it
		name += Pick(t, "*", "+", "-", "'", "!", "?", "s", "2", "-x", ".", "_", "=", ">", "-macros", "n", "/x", "--", "&", "$")
	case 2: // with something before it
		name = Pick(t, "in-", "-", "*", "+", "_", ".", "un", "re", "my-", "x", "a-", "pre-", "s", "p", "!", "<", "=", "&", "$", "do") + name
	case 3: // in other letters
		switch Int(t, 3) {
		case 0:
			name = strings.ToUpper(name)
		case 1:
			name = strings.Title(name)
		case 2:
			name = name[:len(name)-1] + strings.ToUpper(name[len(name)-1:])
		}
	case 4: // shorter
		if len(name) > 1 {
			if Pct(t, 50) {
				name = name[1:]
			} else {
				name = name[:len(name)-1]
			}
		} else {
			name += "x"
		}
	}
	if strings.HasPrefix(name, "-") && len(name) > 1 && name[1] >= '0' && name[1] <= '9' {
		name = "x" + name
	}
	if colon != "" && Pct(t, 30) {
		return Pick(t, "::", "") + name
	}
	return colon + name
}
