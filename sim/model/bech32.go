package model

import "errors"

// Reference codec for BIP-173 text, written from the specification.

const bechChars = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func bechPolymod(v []byte) uint32 {
	gen := [5]uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	chk := uint32(1)
	for _, x := range v {
		top := chk >> 25
		chk = (chk&0x1ffffff)<<5 ^ uint32(x)
		for i := 0; i < 5; i++ {
			if top>>uint(i)&1 == 1 {
				chk ^= gen[i]
			}
		}
	}
	return chk
}

func bechExpand(hrp string) (r []byte) {
	for i := 0; i < len(hrp); i++ {
		r = append(r, hrp[i]>>5)
	}
	r = append(r, 0)
	for i := 0; i < len(hrp); i++ {
		r = append(r, hrp[i]&31)
	}
	return r
}

// BechEncode gives the text of data.
func BechEncode(hrp string, data []byte) string { return BechEncodeGroups(hrp, bechGroups(data)) }

func bechGroups(data []byte) (v []byte) {
	acc, n := uint32(0), uint(0)
	for _, b := range data {
		acc, n = acc<<8|uint32(b), n+8
		for n >= 5 {
			n -= 5
			v = append(v, byte(acc>>n)&31)
		}
	}
	if n > 0 {
		v = append(v, byte(acc<<(5-n))&31)
	}
	return v
}

// BechPad gives the groups of data with other bits in the padding, and with further groups.
func BechPad(data []byte, bits byte, more int) []byte {
	v := bechGroups(data)
	if pad := len(v)*5 - len(data)*8; pad > 0 {
		v[len(v)-1] |= bits & (1<<pad - 1)
	}
	for ; more > 0; more-- {
		v = append(v, 0)
	}
	return v
}

// BechEncodeGroups gives the text of groups of five bits.
func BechEncodeGroups(hrp string, v []byte) string {
	p := bechPolymod(append(append(bechExpand(hrp), v...), 0, 0, 0, 0, 0, 0)) ^ 1
	s := hrp + "1"
	for _, x := range v {
		s += string(bechChars[x])
	}
	for i := 0; i < 6; i++ {
		s += string(bechChars[p>>uint(5*(5-i))&31])
	}
	return s
}

// BechDecode gives the prefix and data of text.
func BechDecode(s string) (string, []byte, error) {
	lower, upper := false, false
	sep := -1
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < 33 || c > 126 {
			return "", nil, errors.New("character out of range")
		}
		lower = lower || c >= 'a' && c <= 'z'
		upper = upper || c >= 'A' && c <= 'Z'
		if c == '1' {
			sep = i
		}
	}
	if lower && upper {
		return "", nil, errors.New("mixed case")
	}
	if sep < 1 || sep+7 > len(s) {
		return "", nil, errors.New("separator")
	}
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	var v []byte
	for _, c := range b[sep+1:] {
		k := -1
		for i := range bechChars {
			if bechChars[i] == c {
				k = i
			}
		}
		if k < 0 {
			return "", nil, errors.New("character")
		}
		v = append(v, byte(k))
	}
	hrp := string(b[:sep])
	if bechPolymod(append(bechExpand(hrp), v...)) != 1 {
		return "", nil, errors.New("checksum")
	}
	v = v[:len(v)-6]
	var data []byte
	acc, n := uint32(0), uint(0)
	for _, x := range v {
		acc, n = acc<<5|uint32(x), n+5
		if n >= 8 {
			n -= 8
			data = append(data, byte(acc>>n))
		}
	}
	if n >= 5 || byte(acc<<(8-n)) != 0 {
		return "", nil, errors.New("padding")
	}
	return hrp, data, nil
}
