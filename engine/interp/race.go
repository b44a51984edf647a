package interp

// Happens-before tracking of the repository's own memory accesses in interleaving mode:
// two accesses to one cell, at least one a write, unordered by synchronisation, are a
// data race.

type vclock []uint32

func (a vclock) get(i int) uint32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func (a vclock) join(b vclock) vclock {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

type shadow struct {
	wt int // last writer
	wc uint32
	ww string
	rs map[int]uint32
	rw map[int]string
}

type races struct {
	th   map[int]vclock
	sync map[interface{}]vclock
	mem  map[interface{}]*shadow
	said bool
}

func (p *path) startRaces() {
	p.races = &races{th: map[int]vclock{}, sync: map[interface{}]vclock{}, mem: map[interface{}]*shadow{}}
}

func (r *races) clock(t int) vclock {
	c := r.th[t]
	for len(c) <= t {
		c = append(c, 0)
	}
	if c[t] == 0 {
		c[t] = 1
	}
	r.th[t] = c
	return c
}

func (r *races) forked(parent, child int) {
	c := append(vclock(nil), r.clock(parent)...)
	r.th[child] = c
	r.clock(child)
	r.th[parent][parent]++
}

// acquire and release order what happened before a release of k before what follows
// an acquire of it.
func (fr *frame) acquire(k interface{}) {
	if r := fr.p.races; r != nil {
		t := fr.th.id
		r.th[t] = r.clock(t).join(r.sync[k])
	}
}

func (fr *frame) release(k interface{}) {
	if r := fr.p.races; r != nil {
		t := fr.th.id
		r.sync[k] = r.sync[k].join(r.clock(t))
		r.th[t][t]++
	}
}

// hb is an operation that both acquires and releases.
func (fr *frame) hb(k interface{}) {
	if fr.p.races != nil {
		fr.acquire(k)
		fr.release(k)
	}
}

// touch is an access of the repository's code to a cell or map.
func (fr *frame) touch(k interface{}, write bool) {
	r := fr.p.races
	if r == nil || fr.code == nil || !fr.code.inRepo || r.said {
		return
	}
	t := fr.th.id
	c := r.clock(t)
	s := r.mem[k]
	if s == nil {
		s = &shadow{wt: -1, rs: map[int]uint32{}, rw: map[int]string{}}
		r.mem[k] = s
	}
	other := ""
	if s.wt >= 0 && s.wt != t && s.wc > c.get(s.wt) {
		other = s.ww
	}
	if write {
		for o, n := range s.rs {
			if o != t && n > c.get(o) {
				other = s.rw[o]
			}
		}
	}
	if other != "" {
		r.said = true
		fr.p.trace = append(fr.p.trace, "data race: "+fr.where()+" and "+other)
		fr.p.violationContinue("data race", fr.p.model)
		return
	}
	if write {
		s.wt, s.wc, s.ww = t, c[t], fr.where()
	} else {
		s.rs[t], s.rw[t] = c[t], fr.where()
	}
}

// touchCell is touch for every scalar in a cell.
func (fr *frame) touchCell(a *value, write bool) {
	if fr.p.races == nil || fr.code == nil || !fr.code.inRepo {
		return
	}
	switch v := (*a).(type) {
	case structure:
		for i := range v {
			fr.touchCell(&v[i], write)
		}
	case array:
		for i := range v {
			fr.touchCell(&v[i], write)
		}
	default:
		fr.touch(a, write)
	}
}
