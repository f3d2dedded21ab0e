package cases

func minMaxSample(slen, n int) (first, step int) {
	step = slen / n
	n--
	span := n * step
	tail := slen - span
	if tail > n && tail>>1 > (step+1)>>1 {
		step++
		span += n
		tail -= n
	}
	return tail >> 1, step
}

// killer builds an arrangement for which a sequential median-of-samples quicksort (samples at equidistant
// positions, Hoare-like partition) splits off only about t elements at every level, so that recursion on the wrong
// side or a bad pivot choice becomes visible. It is just one more input: nothing depends on the model being exact.
func killer(n, t, rec int, fc bool, r *Rng) []int {
	if t < 4 {
		t = 4
	}
	val := make([]int, n)
	arr := make([]int, n)
	for i := range arr {
		arr[i] = i
		val[i] = -1
	}
	next := 0
	low := make([]bool, n)
	rng := arr
	for len(rng) > t+16 {
		ns := 4
		if len(rng) > rec {
			ns = 6
		}
		if fc {
			ns--
		}
		first, step := minMaxSample(len(rng), ns)
		var set []int
		add := func(id int) {
			if !low[id] {
				low[id] = true
				set = append(set, id)
			}
		}
		for _, id := range rng { // solid ones stay lowest
			if val[id] >= 0 {
				add(id)
			}
		}
		half := (ns + 1) / 2
		if !fc {
			half = ns / 2
		}
		top := -1
		for j := 0; j < half; j++ {
			id := rng[first+j*step]
			add(id)
			if val[id] < 0 {
				top = id
			}
		}
		for k := 0; len(set) < t && k < 4*t; k++ {
			id := rng[r.Intn(len(rng))]
			skip := false
			for j := half; j < ns; j++ {
				if rng[first+j*step] == id {
					skip = true
				}
			}
			if !skip {
				add(id)
			}
		}
		for k := len(set) - 1; k > 0; k-- {
			j := r.Intn(k + 1)
			set[k], set[j] = set[j], set[k]
		}
		for _, id := range set {
			if val[id] < 0 && id != top {
				val[id] = next
				next++
			}
		}
		if top >= 0 {
			val[top] = next
			next++
		}
		if !fc {
			if id := rng[first+half*step]; val[id] < 0 {
				val[id] = next
				next++
			}
		}
		// partition
		l, h := 0, len(rng)-1
		for l < h {
			if low[rng[h]] {
				for l < h && low[rng[l]] {
					l++
				}
				if l >= h {
					break
				}
				rng[l], rng[h] = rng[h], rng[l]
			} else if !low[rng[l]] {
				h--
				for l < h && !low[rng[h]] {
					h--
				}
				if l >= h {
					break
				}
				rng[l], rng[h] = rng[h], rng[l]
			}
			l++
			h--
		}
		k := 0
		for _, id := range rng {
			if low[id] {
				k++
			}
		}
		for _, id := range set {
			low[id] = false
		}
		if k < 1 || k >= len(rng) {
			break
		}
		rng = rng[k:]
	}
	var rest []int
	for _, id := range rng {
		if val[id] < 0 {
			rest = append(rest, id)
		}
	}
	for k := len(rest) - 1; k > 0; k-- {
		j := r.Intn(k + 1)
		rest[k], rest[j] = rest[j], rest[k]
	}
	for _, id := range rest {
		val[id] = next
		next++
	}
	for i := range val {
		if val[i] < 0 {
			val[i] = next
			next++
		}
	}
	return val
}
