package main

func even() map[string]int {
	return map[string]int{"select": 4, "insert": 3, "update": 3, "delete": 2}
}

// base is a moderate profile: well-formed programs over everything.
func base() prof {
	return prof{
		kinds: even(), m: map[string]int{"*": 2, "*.Comment": 1}, calls: [2]int{1, 7}, tricky: 0.08, sub: 0.1, depth: 2, big: 0.04, nilp: 0.05,
		enc: 0.08, rawp: 0.15, values: allTypes, lists: 3, comment: "plain", newbare: 0.1, listset: 0.3, restart: 0.08, share: 0.08,
	}
}

var profiles = map[string]func() prof{
	"C01": func() prof {
		p := base()
		p.big, p.huge, p.sub, p.nilp, p.enc, p.lists = 0.15, 0.03, 0.2, 0.1, 0.2, 4
		p.m["*.Where"], p.m["*.Values"], p.m["*.Set"], p.m["*.OnConflict"] = 5, 4, 4, 4
		p.opts.parts = true
		return p
	},
	"C02": func() prof {
		p := base()
		p.m["*.Where"], p.m["*.Values"], p.m["*.Set"], p.m["*.OnConflict"] = 5, 4, 4, 4
		p.enc, p.nilp = 0.15, 0.1
		p.opts.twin = true
		return p
	},
	"C03": func() prof {
		p := base()
		p.newbare, p.sub, p.enc, p.bad = 0.25, 0.2, 0.15, 0.03
		p.opts.parts = true
		return p
	},
	"C04": func() prof {
		p := base()
		p.m["*.Set"], p.m["*.OnConflict"] = 5, 4
		p.render, p.rerend, p.restart, p.sub, p.bad, p.tricky, p.share = 0.4, 0.7, 0.15, 0.2, 0.02, 0.15, 0.25
		p.opts.same = true
		return p
	},
	"C05": func() prof {
		p := base()
		p.calls, p.branch, p.render, p.rerend, p.restart, p.sub, p.lists, p.share = [2]int{3, 14}, 0.5, 0.2, 0.3, 0.06, 0.15, 4, 0.3
		p.m["*.Set"], p.m["*.Join"], p.m["*.With"], p.m["*.OrderBy"], p.m["*.OnConflict"], p.m["*.Using"] = 5, 5, 5, 5, 4, 4
		p.m["*.Where"], p.m["*.And"], p.m["*.Or"] = 5, 8, 4
		p.opts.lin, p.opts.mutate = true, true
		return p
	},
	"C06": func() prof {
		p := base()
		p.calls, p.branch, p.sub, p.lists, p.restart, p.share = [2]int{2, 8}, 0.3, 0.2, 4, 0.15, 0.3
		p.m["*.Set"], p.m["*.Join"], p.m["*.With"], p.m["*.OrderBy"], p.m["*.OnConflict"], p.m["*.Using"] = 5, 5, 5, 5, 4, 4
		p.m["*.Where"], p.m["*.And"], p.m["*.Or"] = 5, 8, 4
		return p
	},
	"C07": func() prof {
		p := base()
		p.kinds = map[string]int{"select": 2, "update": 1, "delete": 1}
		p.m = map[string]int{"*.Where": 3, "*.And": 5, "*.Or": 5, "*.Having": 1}
		p.depth, p.sub, p.tricky, p.big, p.enc, p.restart, p.newbare = 4, 0.05, 0, 0, 0, 0, 0
		return p
	},
	"C08": func() prof {
		p := base()
		p.kinds = map[string]int{"select": 2, "update": 2, "delete": 2}
		p.m = map[string]int{"*": 1, "*.Where": 8, "*.And": 10, "*.Or": 8, "*.Having": 8, "*.Suffix": 0, "*.Prefix": 0}
		p.bad, p.depth, p.restart, p.again = 0.15, 2, 0, 0.4
		return p
	},
	"C09": func() prof {
		p := base()
		p.m = map[string]int{"*": 3}
		p.calls, p.depth, p.lists, p.enc, p.tricky = [2]int{2, 16}, 1, 2, 0.03, 0
		p.newbare = 0.15
		return p
	},
	"C10": func() prof {
		p := base()
		p.calls, p.again, p.lists, p.depth, p.enc, p.tricky, p.branch = [2]int{2, 12}, 0.5, 2, 1, 0.02, 0, 0.1
		p.newbare = 0.2
		return p
	},
	"C11": func() prof {
		p := base()
		p.tricky, p.enc, p.depth, p.sub = 0.7, 0, 1, 0.03
		p.m = map[string]int{"*": 3, "*.Limit": 0, "*.Offset": 0, "*.Comment": 0, "*.Prefix": 0, "*.Suffix": 0, "*.OrderBy": 0}
		return p
	},
	"C12": func() prof {
		p := base()
		p.kinds = map[string]int{"insert": 1, "update": 4}
		p.m = map[string]int{"*.Set": 8, "*.Using": 5, "insert.OnConflict": 8, "*.Where": 1, "insert.Set": 2}
		p.bad, p.tricky, p.lists, p.big, p.calls = 0.04, 0.1, 4, 0.1, [2]int{1, 6}
		return p
	},
	"C13": func() prof {
		p := base()
		p.kinds = map[string]int{"insert": 1}
		p.m = map[string]int{"*.Into": 2, "*.Columns": 4, "*.Values": 8, "*.Set": 3, "*.Returning": 1}
		p.bad, p.enc, p.sub, p.nilp, p.lists, p.big, p.calls = 0.04, 0.2, 0.15, 0.15, 4, 0.08, [2]int{1, 5}
		return p
	},
	"C14": func() prof {
		p := base()
		p.kinds = map[string]int{"select": 1}
		p.m = map[string]int{"*.Join": 10, "*.From": 2, "*.Where": 1}
		p.bad, p.sub, p.restart, p.calls, p.tricky = 0.06, 0, 0, [2]int{2, 7}, 0.15
		return p
	},
	"C17": func() prof {
		p := base()
		p.kinds = map[string]int{"select": 2, "update": 1, "delete": 1}
		p.m = map[string]int{"*.Where": 8, "*.And": 3, "*.Having": 3}
		p.depth, p.rawp, p.sub, p.enc, p.nilp, p.lists, p.big, p.tricky, p.restart = 1, 0.35, 0.12, 0.15, 0.12, 4, 0.06, 0, 0
		return p
	},
	"C18": func() prof {
		p := base()
		p.sub, p.restart, p.calls, p.bad, p.tricky, p.enc = 0.5, 0.25, [2]int{3, 12}, 0.03, 0, 0.1
		p.m["*.With"], p.m["*.Where"], p.m["*.Set"], p.m["*.Values"], p.m["*.OnConflict"] = 5, 5, 4, 4, 4
		p.m["*.Comment"] = 0
		return p
	},
	"C19": func() prof {
		p := base()
		p.kinds = map[string]int{"select": 1}
		p.m = map[string]int{"*.Limit": 5, "*.Offset": 5, "*.From": 1}
		p.bad, p.again, p.calls, p.sub, p.restart, p.branch = 0.45, 0.2, [2]int{2, 8}, 0, 0, 0.4
		return p
	},
	"C20": func() prof {
		p := base()
		p.bad, p.lists, p.newbare, p.again, p.calls = 0.3, 3, 0.3, 0.1, [2]int{2, 9}
		return p
	},
	"C21": func() prof {
		p := base()
		p.m["*.Comment"], p.comment, p.lists, p.depth = 12, "any", 2, 1
		return p
	},
	"C22": func() prof {
		p := base()
		p.kinds = map[string]int{"select": 2, "insert": 2, "update": 1, "delete": 1}
		p.m = map[string]int{"*.Where": 5, "*.And": 3, "*.Values": 8, "*.Set": 5}
		p.values = append(append([]string{}, allTypes...), "time.Time", "time.Time", "float64", "float32", "string", "string", "[]uint8")
		p.enc, p.nilp, p.depth, p.tricky, p.sub, p.rawp, p.restart = 0.15, 0.05, 1, 0, 0, 0.05, 0
		return p
	},
	"C23": func() prof {
		p := base()
		p.kinds = map[string]int{"select": 2, "insert": 2, "update": 1, "delete": 1}
		p.m = map[string]int{"*.Where": 5, "*.And": 3, "*.Values": 8, "*.Set": 5, "*.Using": 3}
		p.enc, p.nilp, p.bad, p.depth, p.tricky, p.sub, p.restart = 0.6, 0.08, 0.06, 1, 0, 0.05, 0
		p.values = append(append([]string{}, allTypes...), bigTypes...)
		return p
	},
	"C24": func() prof {
		p := base()
		p.m = map[string]int{"select.Columns": 3, "*.Distinct": 2, "*.DistinctOn": 3, "*.GroupBy": 3, "*.OrderBy": 6, "*.Returning": 8, "*.From": 1, "*.Set": 1, "*.Values": 1}
		p.kinds = map[string]int{"select": 5, "insert": 1, "update": 1, "delete": 1}
		p.sub, p.bad, p.lists, p.big = 0.08, 0.02, 4, 0.08
		return p
	},
	"C25": func() prof {
		p := base()
		p.is, p.newbare, p.calls, p.branch, p.restart = 1, 0.35, [2]int{0, 6}, 0.2, 0.2
		return p
	},
	"C26": func() prof {
		p := base()
		p.kinds = map[string]int{"insert": 1}
		p.m = map[string]int{"*.OnConflict": 10, "*.Columns": 2, "*.Values": 3, "*.Returning": 3, "*.Set": 1, "*.Comment": 1}
		p.bad, p.again, p.calls, p.sub, p.lists = 0.1, 0.15, [2]int{1, 6}, 0.15, 4
		return p
	},
	"C27": func() prof {
		p := base()
		p.calls, p.pieces, p.lists, p.tricky, p.restart = [2]int{0, 3}, 3, 2, 0.1, 0.1
		return p
	},
}
