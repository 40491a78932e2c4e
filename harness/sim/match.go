package sim

import (
	"math"
	"unicode/utf8"

	"verif/ref"
)

// APIKinds are the readings that the API reports, GetMethod their calls.
var APIKinds = []byte{ref.GetBootloader, ref.GetFans, ref.GetTemps, ref.GetProfiles, ref.GetBypass, ref.GetErrors}

var GetMethod = map[byte]string{
	ref.GetBootloader: "GetBootInfo", ref.GetFans: "GetFans", ref.GetTemps: "GetTemps",
	ref.GetProfiles: "GetFanProfiles", ref.GetBypass: "GetBypass", ref.GetErrors: "GetErrors",
}

// Matches tells whether v is what the API should say for a reading.
func Matches(kind byte, v ref.Val, payload []byte) bool {
	want, ok := ref.Decode(kind, payload)
	if !ok || len(want) != len(v) {
		return false
	}
	for k, x := range want {
		y, ok := v[k]
		if s, isName := x.(string); isName && ok && !utf8.ValidString(s) {
			continue // only has to be answerable
		}
		if f, isF := x.(float64); isF && ok {
			if g, k := y.(float64); k && math.Abs(f-g) < 1e-6 {
				continue
			}
			return false
		}
		if !ok || x != y {
			return false
		}
	}
	return true
}
