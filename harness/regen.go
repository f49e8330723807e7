package harness

import (
	"reflect"
	"sort"
	"strings"
)

// C21 and C24 run against packages the generator wrote during this very check.
// run.py builds the harness with an overlay file that registers them as kinds:
// "r3.*" is v3 regenerated from its templates, "a<i>.*" are arrangements of
// directives.

func regDropped(name string, ver int, mini bool, drop string, errs map[string]any, mk func(slices ...[]byte) any) {
	reg(name, ver, mini, errs, func(_ any, s ...[]byte) any { return mk(s...) })
	kinds[name].drop = drop
}

func arrangements() (ks []string) {
	for k := range kinds {
		if strings.HasPrefix(k, "a") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return
}

var everything = ambient.with(weights{"w": 14, "r": 12, "rbit": 5, "sbit": 5, "fbit": 5, "rbits": 6, "sbits": 6, "fill": 4, "after": 4, "grow": 6, "trunc": 6, "reset": 2, "rej": 10, "inv": 4, "zero": 6})

func initRegen() {
	p24 := prof(16, 6, 45, everything)
	properties["C24"] = &property{id: "C24", rule: "One case is a history of calls (in range, out of range, invalid or for nothing) on the shipped v3 Buffer or MiniBuffer and on the one regenerated from this tree's templates by this tree's generator; results, panics, contents, sizes and cursors have to agree call by call. A MiniBuffer is only called within its domain. Every case also compares the exported method sets. Non-trivial: at least one call was compared; distinct by hash of the case.",
		modes: []*mode{{name: "regen", weight: 100,
			gen: func(g g) *Case {
				k := pickS(g, []string{"v3.Buffer", "v3.MiniBuffer"})
				init, ops := g.history(p24, k)
				if g.pct(15) { // cursors the reference semantics has no opinion on
					h := &hist{g: g, trs: kindTraits(k), p: p24}
					at := g.n(len(ops) + 1)
					more := []Op{{K: "seekbit", Off: -1 - h.within(100)}, {K: pickS(g, []string{"alignbyte", "alignbit", "after", "afterbit"})}}
					if g.pct(30) {
						more = []Op{{K: "seek", Off: h.wild()}, {K: "seekbit", Off: h.wild(), Rel: g.pct(50)}, {K: pickS(g, []string{"alignbyte", "alignbit", "after", "afterbit"})}}
					}
					ops = append(append(append([]Op(nil), ops[:at]...), more...), ops[at:]...)
				}
				return one("C24", k, init, ops)
			},
			run: runC24}}}

	p21 := prof(12, 0, 40, weights{"w": 30, "r": 30, "seek": 6, "grow": 2, "trunc": 2, "fill": 1, "rej": 16, "poke": 2, "sbits": 1})
	m := &mode{name: "arranged", weight: 100,
		gen: func(g g) *Case {
			k := pickS(g, arrangements())
			init, ops := g.history(p21, k)
			return one("C21", k, init, ops)
		},
		run: func(c *Case, r *Run) *Failure {
			if f := methodsThere(kinds[c.Kinds[0]]); f != nil {
				return f
			}
			return runHistory(c, r, ownCalls(func(tr traits, o *Op, x *Expect) bool {
				return (o.K == "w" || o.K == "r") && elemSize(o.T) > 1 && o.count() > 0
			}, "outcome", "vals", "tail", "arg", "noreject", "errval", "buf", "len", "off", "boff"))
		}}
	properties["C21"] = &property{id: "C21", modes: []*mode{m}, rule: "Templates: the v3 ones with their directives taken out and a random selection of all directives put back in random order at random places among both files (and sometimes a third), next to look-alike and invalid directives; the generator's output is compiled. One case is a history of calls on a Buffer or MiniBuffer of one such package, judged against the reference semantics. Spoken about: calls of the generated methods with at least one element, in range and (Buffer) out of range; their presence is checked in every case. Non-trivial: at least one such call; distinct by hash of the case."}
}

// methodsThere checks that every directive put into the arrangement left its
// two methods.
func methodsThere(k *kindOf) *Failure {
	t := reflect.TypeOf(k.mk(nil))
	for _, d := range allDirectives {
		if (d.recv == "MiniBuffer") != k.mini || strings.Contains(k.drop, "|"+d.method()+"|") {
			continue
		}
		for _, n := range []string{d.method(), d.method() + "Next"} {
			if _, ok := t.MethodByName(n); !ok {
				return failf(-1, "%s: no method %s although its directive %q is in a template", k.name, n, d.line())
			}
		}
	}
	return nil
}

// methodSet lists the exported methods with their types; both packages are
// called v3.
func methodSet(k *kindOf) map[string]string {
	t := reflect.TypeOf(k.mk(nil))
	m := map[string]string{}
	for i := 0; i < t.NumMethod(); i++ {
		m[t.Method(i).Name] = t.Method(i).Type.String()
	}
	return m
}

// cursorOnly calls address nothing, so the two packages can be compared even
// where the reference semantics leaves the result open (aligning a negative bit
// cursor).
func cursorOnly(o *Op) bool {
	return o.K == "seek" || o.K == "seekbit" || o.K == "alignbit" || o.K == "alignbyte" || o.K == "after" || o.K == "afterbit"
}

func runC24(c *Case, r *Run) *Failure {
	shipped := newImpl(c.Kinds[0], buildAll(c.Init[0], nil)...)
	regen := newImpl("r"+c.Kinds[0][1:], buildAll(c.Init[0], nil)...)
	a, b := methodSet(shipped.kindOf), methodSet(regen.kindOf)
	for n, t := range a {
		if b[n] == "" {
			return failf(-1, "%s: exported method %s is missing after regeneration", c.Kinds[0], n)
		} else if b[n] != t {
			return failf(-1, "%s: exported method %s is %s, after regeneration %s", c.Kinds[0], n, t, b[n])
		}
	}
	for n := range b {
		if a[n] == "" {
			return failf(-1, "%s: regeneration adds exported method %s", c.Kinds[0], n)
		}
	}
	pre := shipped.observe()
	if p := regen.observe(); len(diffState(&pre, &p, nil)) > 0 {
		return failf(-1, "%s: regenerated, a new buffer differs: %s", c.Kinds[0], diffState(&pre, &p, nil)[0].msg)
	}
	r.trivial = true
	for i := range c.Ops {
		o := &c.Ops[i]
		x := spec(shipped.traits, &pre, o)
		if x.Undefined && !cursorOnly(o) {
			continue
		}
		if x.Partial && !x.Ok {
			continue // how much is stored before the panic is left open
		}
		entering(true)
		ra, rb := shipped.apply(o), regen.apply(o)
		entering(false)
		r.steps++
		r.judged++
		r.trivial = false
		classify(r, shipped.traits, o, &x, &pre)
		where := func() string {
			return shipped.name + ": " + o.String() + ": shipped and regenerated code disagree: "
		}
		if ra.Panicked != rb.Panicked {
			return failf(i, "%spanicked=%v (%s), regenerated: panicked=%v (%s)", where(), ra.Panicked, ra.errName(shipped.kindOf), rb.Panicked, rb.errName(regen.kindOf))
		}
		if ra.Panicked {
			na, nb := ra.errName(shipped.kindOf), rb.errName(regen.kindOf)
			ka, kb := any3(na, errOrder...), any3(nb, errOrder...)
			if (ka || kb) && na != nb && !(any3(na, x.Errs...) && any3(nb, x.Errs...)) {
				return failf(i, "%spanics with %s, regenerated: %s", where(), na, nb)
			}
		}
		if !eqU64(ra.Vals, rb.Vals) {
			return failf(i, "%s%s (expected: shipped)", where(), describeVals(ra.Vals, rb.Vals))
		}
		if ra.TailBad != rb.TailBad {
			return failf(i, "%s%q, regenerated: %q", where(), ra.TailBad, rb.TailBad)
		}
		look := o.Look
		if x.Undefined {
			look = 0
		}
		pa, pb := shipped.look(look, &x.Post), regen.look(look, &x.Post)
		if d := diffState(&pa, &pb, nil); len(d) > 0 {
			return failf(i, "%safterwards, regenerated: %s", where(), d[0].msg)
		}
		if !x.Undefined && ra.Panicked != !x.Ok {
			return nil // both wrong in the same way: other properties'
		}
		pre = pa
	}
	pa, pb := shipped.observe(), regen.observe()
	if d := diffState(&pa, &pb, nil); len(d) > 0 {
		return failf(-1, "%s: shipped and regenerated code disagree: in the end, regenerated: %s", shipped.name, d[0].msg)
	}
	return nil
}
