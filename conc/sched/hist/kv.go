package hist

// KV is a store whose accesses are neither scheduling points nor seen by the
// race detector (the runtime's maps would be); threads get copies.
type KV struct {
	e [512]struct {
		k, v string
		ok   bool
	}
	n int
}

func NewKV() *KV { return new(KV) }

func (k *KV) at(key []byte) int {
outer:
	for i := 0; i < k.n; i++ {
		s := k.e[i].k
		if len(s) != len(key) {
			continue
		}
		for j := 0; j < len(s); j++ {
			if s[j] != key[j] {
				continue outer
			}
		}
		return i
	}
	return -1
}

func (k *KV) Put(key, val []byte) {
	i := k.at(key)
	if i < 0 {
		i = k.n
		k.n++ // panics beyond the array
		k.e[i].k = string(key)
	}
	k.e[i].v, k.e[i].ok = string(val), true
}
func (k *KV) Get(key []byte) []byte {
	i := k.at(key)
	if i < 0 || !k.e[i].ok {
		return nil
	}
	return []byte(k.e[i].v)
}
func (k *KV) Has(key []byte) bool { i := k.at(key); return i >= 0 && k.e[i].ok }
func (k *KV) Delete(key []byte) {
	if i := k.at(key); i >= 0 {
		k.e[i].v, k.e[i].ok = "", false
	}
}
func (k *KV) Len() int {
	n := 0
	for i := 0; i < k.n; i++ {
		if k.e[i].ok {
			n++
		}
	}
	return n
}

// Clone gives a copy.
func (k *KV) Clone() *KV {
	c := new(KV)
	*c = *k
	return c
}
