// Package macm is an ideal keyed MAC used under the engine in place of crypto/hmac: equal (hash, key, data)
// give equal tags, different ones different tags, and nobody can guess a tag.
package macm

import (
	"crypto"
	"hash"
)

type entry struct {
	size int
	key  string
	data string
}

var table []entry

type mac struct {
	e entry
}

func New(h func() hash.Hash, key []byte) hash.Hash {
	return &mac{entry{size: h().Size(), key: string(key)}}
}

func (m *mac) Write(p []byte) (int, error) {
	if m.e.data == "" {
		m.e.data = string(p)
	} else {
		m.e.data += string(p)
	}
	return len(p), nil
}

func (m *mac) Reset()         { m.e.data = "" }
func (m *mac) Size() int      { return m.e.size }
func (m *mac) BlockSize() int { return 64 }

func (m *mac) Sum(b []byte) []byte {
	k := -1
	for i := range table {
		if k < 0 && table[i].size == m.e.size && table[i].key == m.e.key && table[i].data == m.e.data {
			k = i
		}
	}
	if k < 0 {
		k = len(table)
		table = append(table, m.e)
	}
	tag := make([]byte, m.e.size)
	for i := range tag {
		tag[i] = byte(0xa0 + i)
	}
	tag[0] = byte(k)
	return append(b, tag...)
}

func Equal(a, b []byte) bool { return string(a) == string(b) }

// HashNew stands for crypto.Hash.New: only the size is used.
func HashNew(h crypto.Hash) hash.Hash { return &mac{entry{size: h.Size()}} }

// HashAvailable stands for crypto.Hash.Available (the hashes are linked into every program using braid).
func HashAvailable(h crypto.Hash) bool {
	return h == crypto.SHA256 || h == crypto.SHA384 || h == crypto.SHA512
}
