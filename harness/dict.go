package harness

import (
	"encoding/json"
	"math/bits"
	"os"
	"strings"
)

// The fuzzing dictionary (tools/dictionary.py): literals of the code under
// test. It steers the generators and nothing else.

var dict = func() (d struct {
	Ints    []int64  `json:"ints"`
	GenInts []int64  `json:"gen_ints"`
	Raw     [][]byte `json:"gen_strings"`
	Strings []string `json:"-"`
}) {
	if p := os.Getenv("VERIF_DICT"); p != "" {
		b, err := os.ReadFile(p)
		if err == nil {
			err = json.Unmarshal(b, &d)
		}
		if err != nil {
			panic(err)
		}
	}
	if len(d.Ints) == 0 {
		d.Ints = []int64{0, 1, 2, 8, 16, 32, 64, 255}
	}
	if len(d.GenInts) == 0 {
		d.GenInts = []int64{1, 2, 3}
	}
	var s []string
	for _, b := range d.Raw {
		x := string(b)
		if x != "" && !strings.ContainsAny(x, "\n\r") {
			s = append(s, x)
		}
	}
	if d.Strings = s; len(s) == 0 {
		d.Strings = []string{"Buffer", "complex", ".go"}
	}
	// values to write, in both byte orders and as one lane of several
	for _, v := range d.Ints {
		u := uint64(v)
		if u <= 64 {
			continue
		}
		specials = append(specials, u, u<<32|u&0xFFFFFFFF)
		if u < 1<<32 {
			specials = append(specials, uint64(bits.ReverseBytes32(uint32(u))))
		}
	}
	return
}()

// lit draws a number near a literal of the code, in [0, max], or gives up.
func (g g) lit(max int64) (int64, bool) {
	v := pickS(g, dict.Ints)
	switch g.n(8) {
	case 0, 1, 2:
	case 3:
		v++
	case 4:
		v--
	case 5:
		v *= 8
	case 6:
		v /= 8
	case 7:
		v += g.in(0, 9)
	}
	return v, v >= 0 && v <= max
}
