package checks

import "golang.org/x/crypto/sha3"

// keccak is the harness's own hash (independent of the code under test's hash plumbing).
func keccak(in ...[]byte) []byte {
	h := sha3.NewLegacyKeccak256()
	for _, b := range in {
		h.Write(b)
	}
	return h.Sum(nil)
}
