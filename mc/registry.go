package main

const ruleModel = "every input of the listed spaces is parsed by the implementation (rebuilt from /repo) and by the reference grammar automaton, and the two results are compared; states and transitions are those of the automaton (stack of nonterminals, last token class) that were visited"

var base = budgets{"seq": 30, "nest": 10, "pairs": 5, "blocks": 3, "forms": 30, "gaps": 15, "edits1": 1, "words": 1, "edits2": 0, "comments": 1, "pump": 70, "far": 1025, "deep": 1025, "boundary": 0, "chars": 10, "tokens": 3, "viable": 6, "prefix": 1, "charedits": 0}

var docBudgets = map[string]budgets{
	"C01": base.with(budgets{"editlays": 2, "vocab": 1, "rune-i": 1, "rune-f": 1, "chars": 35, "forms": 120, "edits2": 100, "tokens": 5, "viable": 9, "gaps": 0, "boundary": 0, "blocks": 0}),
	"C02": base.with(budgets{"longgaps": 1, "vocab": 2, "rune-i": 1, "huge": 1, "forms": 30, "nest": 20, "pairs": 50, "tokens": 0, "viable": 4}),
	"C03": base.with(budgets{"adjacent": 1, "vocab": 1, "rune-s": 1, "forms": 30, "chars": 15, "pairs": 0, "blocks": 0, "nest": 0, "comments": 0, "prefix": 0, "tokens": 1, "viable": 3}),
	"C04": base.with(budgets{"longgaps": 1, "vocab": 1, "rune-c": 1, "rune-b": 1, "rune-s": 1, "huge": 1, "boundary": 1, "pairs": 50, "blocks": 45, "comments": 3, "twins": 1, "edits1": 0, "tokens": 0, "viable": 2, "forms": 10, "chars": 5}),
	"C05": base.with(budgets{"longgaps": 1, "vocab": 1, "rune-b": 1, "huge": 1, "pairs": 50, "blocks": 45, "comments": 12, "twins": 2, "edits1": 0, "tokens": 0, "viable": 0, "chars": 2, "forms": 3}),
	"C06": {"longgaps": 1, "vocab": 1, "seq": 5, "nest": 2, "pairs": 5, "blocks": 3, "forms": 10, "gaps": 40, "edits1": 2, "comments": 4, "pump": 20, "chars": 2, "tokens": 1, "viable": 2},
	"C07": {"vocab": 1, "words": 1, "huge": 1, "bytes": 20, "seq": 5, "nest": 5, "pairs": 3, "blocks": 3, "forms": 10, "gaps": 5, "edits1": 1, "edits2": 10, "comments": 2, "pump": 70, "far": 1025, "deep": 1025, "chars": 5, "tokens": 1, "viable": 2, "prefix": 1},
	"C12": {"vocab": 1, "words": 1, "twins": 1, "seq": 3, "nest": 2, "pairs": 3, "blocks": 3, "forms": 3, "gaps": 3, "edits1": 2, "comments": 1, "pump": 20, "far": 300, "chars": 1, "tokens": 1, "viable": 1},
	"C13": {"vocab": 1, "twins": 1, "seq": 60, "nest": 60, "pairs": 60, "blocks": 60, "forms": 100, "gaps": 0, "edits1": 0, "comments": 30, "pump": 20, "far": 300, "chars": 1, "tokens": 0, "viable": 0},
	"C14": {"vocab": 1, "twins": 1, "seq": 100, "nest": 60, "pairs": 60, "blocks": 60, "forms": 100, "gaps": 0, "edits1": 0, "comments": 40, "pump": 20, "far": 300, "chars": 1, "tokens": 0, "viable": 0},
	"C17": {"vocab": 1, "seq": 10, "nest": 8, "pairs": 10, "blocks": 5, "forms": 20, "gaps": 4, "edits1": 1, "comments": 3, "pump": 20, "far": 300, "chars": 1, "tokens": 0, "viable": 1, "boundary": 0, "edits2": 0},
	"C11": base.with(budgets{"editlays": 5, "vocab": 1, "edits2": 30, "forms": 10, "chars": 5, "viable": 3, "tokens": 2, "pairs": 0, "blocks": 0, "gaps": 0}),
}

// optBudgets: the documents that are tried under every combination of the
// options.
var optBudgets = budgets{"seq": 5, "nest": 3, "pairs": 3, "blocks": 3, "forms": 4, "gaps": 3, "comments": 1, "edits1": 2, "pump": 20, "far": 129, "deep": 20, "viable": 1, "prefix": 1}

var optCfgs = func() (cs []cfg) {
	for i := 0; i < 16; i++ {
		c := cfg{permissive: i&1 == 0, body: i&2 == 0, debug: i&4 != 0}
		if i&8 != 0 {
			c.filename = "a b/%d.proto"
		}
		cs = append(cs, c)
	}
	return cs
}()

func modelCheck(id string, cs []cfg, o oracle) check {
	return check{"model_checking", ruleModel, func(r *Run) {
		us := r.docs(optBudgets)
		for i := range us {
			us[i].name = "all-options/" + us[i].name
			us[i].bound += ", under all combinations of the options"
		}
		r.each(us, func(w *Worker, src string) { w.judge(src, optCfgs, o) })
		if cs[0].filename != "" {
			r.each([]uni{filenamesUni()}, func(w *Worker, name string) {
				for _, src := range filenameDocs {
					for _, c := range cs {
						c.filename = name
						w.judge(src, []cfg{c}, o)
					}
				}
			})
		}
		r.each(r.docs(docBudgets[id]), func(w *Worker, src string) { w.judge(src, cs, o) })
	}}
}

func init() {
	checks["C01"] = modelCheck("C01", []cfg{cfgP, cfgS}, oAccept)
	checks["C02"] = modelCheck("C02", []cfg{cfgP, cfgS}, oTree)
	checks["C03"] = modelCheck("C03", []cfg{cfgP, cfgS}, oConst)
	checks["C04"] = modelCheck("C04", []cfg{cfgPF, cfgSF}, oPos)
	checks["C05"] = modelCheck("C05", []cfg{cfgP, cfgPB}, oComments)
	checks["C11"] = modelCheck("C11", []cfg{cfgPF, cfgSF}, oErrPos)
}
