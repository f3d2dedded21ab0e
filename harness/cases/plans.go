package cases

// Plan is how many cases of a property run in a build variant, per tier.
type Plan struct {
	Variant         string
	Quick, Thorough int
}

// PropPlan is the driver's view of a property.
type PropPlan struct {
	ID    string
	Plans []Plan
	Rule  string
	Env   []string // extra environment of workers
}

// Props lists all properties decided by workers; C21 has its own driver.
var Props = []PropPlan{
	{ID: "C01", Plans: []Plan{{"plain", 75000, 450000}, {"tune", 120000, 720000}},
		Rule: "integer kind x length x arrangement x value pool x MaxGor x GOMAXPROCS (x thresholds in the tune variant); non-trivial: at least 2 elements, not already in ascending order"},
	{ID: "C02", Plans: []Plan{{"plain", 75000, 450000}, {"tune", 120000, 720000}},
		Rule: "float kind x NaNoption x number, placement and payloads of NaNs x length x arrangement x value pool x MaxGor; non-trivial: at least 2 elements, not already ordered"},
	{ID: "C03", Plans: []Plan{{"plain", 60000, 360000}, {"tune", 120000, 720000}},
		Rule: "string or byte-slice contents x sharing/nil/empty x length x arrangement x MaxGor; non-trivial: at least 2 elements, not already ordered"},
	{ID: "C04", Plans: []Plan{{"plain", 25000, 200000}, {"tune", 40000, 300000}},
		Rule: "element type x length distribution (to the largest int for zero-size elements) x number of elements x arrangement x MaxGor; non-trivial: at least 2 elements, not already ordered by length"},
	{ID: "C05", Plans: []Plan{{"plain", 18000, 150000}, {"tune", 40500, 300000}},
		Rule: "strict weak order (incl. an on-line adversary) x length x arrangement x MaxGor; non-trivial: at least 2 elements, not already ordered"},
	{ID: "C06", Plans: []Plan{{"tune", 21600, 129600}, {"plain", 10800, 64800}},
		Rule: "tune: Sort under an owned schedule, every quiescent state compares all simultaneously pending calls; plain: free-running Sort/IsSorted with per-position usage counters; non-trivial: two calls of different goroutines were pending at once (tune) or the sort swapped something (plain)"},
	{ID: "C07", Plans: []Plan{{"plain", 3000, 30000}, {"tune", 3000, 30000}, {"instr", 2000, 20000}}, Env: []string{"GODEBUG=clobberfree=1,gccheckmark=1"},
		Rule: "pointer/string/slice elements referenced only by the slice, garbage collector running continuously, freed memory clobbered; non-trivial: at least one collection cycle completed during the sort calls and the input was not ordered"},
	{ID: "C08", Plans: []Plan{{"plain", 180000, 1080000}},
		Rule: "ordered collections with 0..3 planted perturbations (adjacent pair, ends, NaN borders), random ones, and results of sorts; half of the native ones in read-only memory; non-trivial: exactly ordered or perturbed in at most 3 places"},
	{ID: "C09", Plans: []Plan{{"plain", 120000, 720000}},
		Rule: "types from a grammar over reflect (basic kinds, named kinds, pointers, arrays, slices, maps, chans, funcs, structs, interfaces), values of them, each of the four entry points; non-trivial: value with at least 2 elements, or a type outside the documented ones"},
	{ID: "C10", Plans: []Plan{{"plain", 36000, 216000}, {"tune", 36000, 216000}},
		Rule: "sub-slices placed flush against inaccessible pages or between canary elements, read-only bodies, read-only collections for the checks; non-trivial: at least 2 elements, not already ordered (or a check on a read-only collection)"},
	{ID: "C11", Plans: []Plan{{"tune", 72000, 432000}, {"instr", 48000, 288000}, {"plain", 1500, 15000}},
		Rule: "plain: free-running Sort on up to 1M elements, counting callbacks in progress; otherwise Sort (tune) and native kinds (instr) under owned schedules, MaxGor 2..6; non-trivial: at least two goroutines were working at once"},
	{ID: "C12", Plans: []Plan{{"plain", 2400, 30000}, {"tune", 1200, 20000}},
		Rule: "inputs with MaxGor <= 1, or not longer than the maximum length for recursion, or only checked/searched, x every kind; runtime counters before and after; non-trivial: at least 2 elements"},
	{ID: "C13", Plans: []Plan{{"tune", 86400, 518400}, {"instr", 57600, 345600}, {"plain", 1500, 15000}},
		Rule: "plain: free-running calls on up to 1M elements; otherwise Sort (tune) and native kinds (instr) under owned schedules; non-trivial: at least two goroutines of the call existed and at least two were simultaneously runnable"},
	{ID: "C14", Plans: []Plan{{"race", 2700, 16200}, {"tunerace", 8100, 48600}},
		Rule: "1..4 concurrent calls of mixed kinds on adjacent segments, shared read-only checks and searches, race detector on; non-trivial: some call was concurrent (two calls, or MaxGor > 1 and long enough)"},
	{ID: "C15", Plans: []Plan{{"tune", 12000, 72000}, {"instr", 4800, 28800}, {"plain", 2400, 14400}},
		Rule: "owned schedules with 1..6 changes of MaxGor at generated steps, raise-early cases, free-running calls with a hammering goroutine; non-trivial: a change happened while at least two goroutines existed, or the limit was raised and used"},
	{ID: "C16", Plans: []Plan{{"tune", 480000, 2880000}},
		Rule: "feasible parameter tuples (minimal, close to the bounds, random, default) x every kind x length relative to the tuple x arrangement x MaxGor; non-trivial: at least 2 elements, not already ordered"},
	{ID: "C17", Plans: []Plan{{"plain", 900000, 5400000}},
		Rule: "n (0, small, powers of two +-1, near MaxInt, random) x first true index; and search in sorted slices; non-trivial: n >= 2"},
	{ID: "C18", Plans: []Plan{{"plain", 1400, 12000}, {"tune", 1000, 10000}, {"instr", 1000, 10000}},
		Rule: "kind x length x (random, regular, skewed, adversarial) arrangement; allocation counters with the collector off, multiplicity of functions on the call stack; non-trivial: longer than the maximum length for recursion"},
	{ID: "C19", Plans: []Plan{{"plain", 2250, 13500}, {"instr", 3150, 18900}},
		Rule: "random and regular arrangements x length x kind x MaxGor: lesswap calls (plain) or executed statements (instr) against c*n*log2(n); on-line adversary against a quadratic bound; non-trivial: n >= 100"},
	{ID: "C22", Plans: []Plan{{"plain", 1200, 20000}, {"tune", 1600, 24000}},
		Rule: "one or two calls of one kind on inputs of up to 60 times the maximum length for recursion, MaxGor 2..4096; exact heap profile of channels before and after; non-trivial: a channel was made"},
	{ID: "C23", Plans: []Plan{{"plain", 40000, 240000}, {"tune", 40000, 240000}},
		Rule: "single-goroutine Sort, IsSorted or Search x callback call at which it panics, fails or ends the goroutine; non-trivial: the callback is called at all"},
	{ID: "C24", Plans: []Plan{{"plain", 4000, 40000}, {"tune", 4000, 40000}},
		Rule: "1..3 calls of one kind on collections dropped right after, weak pointers to the collection, its referenced memory and what callbacks capture; non-trivial: at least 2 elements"},
	{ID: "C25", Plans: []Plan{{"tune", 4000, 40000}, {"instr", 2000, 20000}},
		Rule: "randomly ordered input of 30 to 1000 times the maximum length for recursion, MaxGor 2..20, one or two calls at once, any arrangement for two goroutines at least (MaxGor up to 2^64-1), fair owned schedules; every case is non-trivial"},
	{ID: "C26", Plans: []Plan{{"plain", 2500, 25000}, {"tune", 4000, 40000}},
		Rule: "collections in local variables of a fresh goroutine (its stack grown before, so that it may shrink) x kind x length x arrangement x MaxGor, garbage collector running continuously; non-trivial: long enough for concurrency and MaxGor > 1"},
	{ID: "C27", Plans: []Plan{{"plain", 12000, 100000}, {"tune", 24000, 200000}},
		Rule: "a single-goroutine call and checks (kind x length x arrangement), 1..6 other calls (any kind, concurrent, failing, NaNs under each NaNoption), the same call again on the same contents, often at another address: equal traces; non-trivial: at least 2 elements"},
	{ID: "C28", Plans: []Plan{{"plain", 12000, 120000}, {"instr", 6000, 60000}},
		Rule: "sortedness checks of ordered, unordered and disturbed collections of every kind, Search; callbacks, executed statements, allocations and recursion against linear (logarithmic) bounds; non-trivial: at least 100 elements"},
	{ID: "C20", Plans: []Plan{{"i386", 36000, 216000}, {"tune386", 48000, 288000}},
		Rule: "cases of C01-C10 and C17 run in a GOARCH=386 build; non-trivial: as in the property the case comes from"},
}

// PropByID finds a property.
func PropByID(id string) *PropPlan {
	for i := range Props {
		if Props[i].ID == id {
			return &Props[i]
		}
	}
	return nil
}
