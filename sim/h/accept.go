package h

import "strings"

const generic = " panic memfault deadlock livelock"

// accepted: which kinds of violation break which property.
var accepted = map[string]string{
	"C01": "reuse regress",
	"C02": "reuse regress",
	"C03": "reuse regress error-swallowed sig-with-error",
	"C04": "lost-key wrong-pk bad-sig verify-reject bad-accepted bad-changed" + generic,
	"C05": "store-numbers seq-gap lost-wrong lost-under counter regress reuse lost-key",
	"C06": "bad-sig verify-reject",
	"C07": "lost-key wrong-pk bad-sig spurious-fail verify-reject" + generic,
	"C08": "double-open bad-locked stuck-lock lost-key spurious-fail" + generic,
	"C09": "spurious-fail lost-key closed-use stuck-lock" + generic,
	"C10": "unretired cache-unbounded",
	"C11": "race",
	"C12": "verify-accept verify-reject" + generic,
	"C13": "stream-ignored stream-verify bad-sig verify-accept verify-reject reuse spurious-fail sig-with-error" + generic,
	"C14": "entropy-key entropy-reuse entropy-fresh wrong-pk" + generic,
	"C15": "store-concurrent store-closed-use store-unrecorded bad-sig reuse regress error-swallowed sig-with-error spurious-fail wrong-pk" + generic,
	"C16": "exhausted-range reuse spurious-fail bad-sig lost-key verify-reject" + generic,
	"C17": "cache-misplaced wrong-pk bad-sig lost-key spurious-fail verify-reject" + generic,
	"C18": "nonlinearizable counter reuse seq-gap unretired",
	"C19": "secret-exposed",
	"C24": "store-contract store-numbers error-swallowed double-open bad-locked" + generic,
	"C25": "leak memfault",
	"C26": "reuse regress bad-sig wrong-pk lost-key spurious-fail stuck-lock bad-locked double-open counter seq-gap lost-wrong unretired verify-reject" + generic,
	"C27": "precompute-missing sign-stalled" + generic,
}

var acceptSet = map[string]map[string]bool{}

func init() {
	for p, s := range accepted {
		m := map[string]bool{}
		for _, c := range strings.Fields(s) {
			m[c] = true
		}
		acceptSet[p] = m
	}
}

// Accepts tells whether a kind of violation breaks a property.
func Accepts(prop, class string) bool {
	if prop == "all" {
		return true
	}
	return acceptSet[prop][class]
}
