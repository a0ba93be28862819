package middleware

import "strings"

// C25: the token spells the random bytes.

func specHex(n int) byte {
	if n < 10 {
		return byte('0' + n)
	}
	return byte('A' + n - 10)
}

// specNonceChar: character j of the token of the c-th read of the random source.
func specNonceChar(c, j int) byte {
	b := int(vRandByte(c, j>>1))
	if j&1 == 0 {
		return specHex(b >> 4)
	}
	return specHex(b & 15)
}

//gov:cut generateNonce
func prop_C25_nonce() {
	vRandStart()
	vInv("generateNonce", "two digits per byte", func(_i int, sb strings.Builder) bool { return len(sb.String()) == 2*_i })
	vInv("generateNonce", "spelled so far", func(_i int, sb strings.Builder) bool {
		s := sb.String()
		return vForall(0, 2*_i, func(j int) bool { return s[j] == specNonceChar(0, j) })
	})
	s, err := generateNonce()
	vAssert(vRandCalls() == 1, "one-read-of-the-random-source")
	vAssert((err == nil) == vRandGood(0), "a-token-is-issued-exactly-when-the-random-source-works")
	if err != nil {
		vAssert(s == "", "no-token-without-randomness")
		return
	}
	vAssert(len(s) == 32, "the-token-has-32-digits")
	vAssert(vForall(0, 32, func(j int) bool { return s[j] == specNonceChar(0, j) }), "the-token-spells-the-random-bytes")
}

// The spelling loses nothing: a digit determines its four bits, so two characters determine the byte.
func prop_C25_injective(a, b byte) {
	vAssert(vImp(vAnd(specHex(int(a)>>4) == specHex(int(b)>>4), specHex(int(a)&15) == specHex(int(b)&15)), a == b), "different-bytes-have-different-spellings")
}
