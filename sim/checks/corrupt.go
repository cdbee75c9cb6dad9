package checks

import (
	"bytes"
	"fmt"
	"strings"

	"verifsim/engine"
)

var interesting = []string{"\n", "\r", "\t", "  ", " ", ";", "=", "@", "@@", "-", "+", "0", "9", ".", ",", "'", ":", "/", "\x00", "\xff", "\xc2", "\u00a0", "#", "*", "~", "\"",
	"include ", "P ", "D ", "account ", "commodity ", "EUR", "$", "9223372036854775807", "99999999999999999999", "0.00000001", "1e9", "-0", "2021-02-30", "0000-00-00", "9999-12-31/23:59:59", "date:", "code:", "isin:",
	"include main.ledger\n", "\n  Assets:Transfer account  5 EUR\n", "  = ", " @ ", "  ;date:2020-01-01\n"}

// corrupt damages the files as storage can: flipped or replaced bytes, torn
// tails, lost, repeated and swapped lines, blocks of zeros and stale blocks.
func corrupt(c *engine.Ctx, files map[string][]byte, max int) (what []string) {
	names := sortedKeys(files)
	for i := c.Range(1, max); i > 0; i-- {
		n := names[c.N(len(names))]
		b := files[n]
		lines := bytes.SplitAfter(b, []byte("\n"))
		if len(lines) > 0 && len(lines[len(lines)-1]) == 0 {
			lines = lines[:len(lines)-1]
		}
		join := func() { files[n] = bytes.Join(lines, nil) }
		at := func(l int) int {
			if l == 0 {
				return 0
			}
			return c.N(l)
		}
		kind := c.N(13)
		if len(b) == 0 || len(lines) == 0 {
			kind = 3
		}
		switch kind {
		case 0:
			k := at(len(b))
			b = append([]byte(nil), b...)
			b[k] ^= 1 << uint(c.N(8))
			files[n] = b
			what = append(what, fmt.Sprintf("flip a bit of %s at %d", n, k))
		case 1:
			k := at(len(b))
			b = append([]byte(nil), b...)
			b[k] = byte(c.N(256))
			files[n] = b
			what = append(what, fmt.Sprintf("replace byte %d of %s", k, n))
		case 2:
			k := at(len(b))
			files[n] = append([]byte(nil), b[:k]...)
			what = append(what, fmt.Sprintf("cut %s at %d", n, k))
		case 3, 4:
			k := at(len(b))
			s := interesting[c.N(len(interesting))]
			files[n] = []byte(string(b[:k]) + s + string(b[k:]))
			what = append(what, fmt.Sprintf("insert %q in %s at %d", s, n, k))
		case 5:
			k := at(len(lines))
			lines = append(append([][]byte(nil), lines[:k]...), lines[k+1:]...)
			join()
			what = append(what, fmt.Sprintf("lose line %d of %s", k+1, n))
		case 6:
			k := at(len(lines))
			lines = append(append(append([][]byte(nil), lines[:k+1]...), lines[k]), lines[k+1:]...)
			join()
			what = append(what, fmt.Sprintf("repeat line %d of %s", k+1, n))
		case 7:
			k, m := at(len(lines)), at(len(lines))
			lines = append([][]byte(nil), lines...)
			lines[k], lines[m] = lines[m], lines[k]
			join()
			what = append(what, fmt.Sprintf("swap lines %d and %d of %s", k+1, m+1, n))
		case 8:
			k := at(len(b))
			m := k + 1 + c.N(20)
			if m > len(b) {
				m = len(b)
			}
			files[n] = append(append([]byte(nil), b[:k]...), b[m:]...)
			what = append(what, fmt.Sprintf("lose bytes %d-%d of %s", k, m, n))
		case 9: // a block of zeros
			k := at(len(b))
			b = append([]byte(nil), b...)
			for m := k; m < len(b) && m < k+1+c.N(30); m++ {
				b[m] = 0
			}
			files[n] = b
			what = append(what, fmt.Sprintf("zeros in %s at %d", n, k))
		case 10: // a block of lines of some other place
			o := names[c.N(len(names))]
			src := bytes.SplitAfter(files[o], []byte("\n"))
			k := at(len(src))
			m := k + 1 + c.N(4)
			if m > len(src) {
				m = len(src)
			}
			p := at(len(lines) + 1)
			block := append([][]byte(nil), src[k:m]...)
			lines = append(append(append([][]byte(nil), lines[:p]...), block...), lines[p:]...)
			join()
			what = append(what, fmt.Sprintf("copy lines %d-%d of %s into %s at line %d", k+1, m, o, n, p+1))
		case 11: // one word of the file replaced by another
			w := strings.Fields(string(b))
			if len(w) == 0 {
				continue
			}
			x, y := w[c.N(len(w))], w[c.N(len(w))]
			if c.N(3) == 2 {
				y = interesting[c.N(len(interesting))]
			}
			k := at(len(b))
			m := bytes.Index(b[k:], []byte(x))
			if m < 0 {
				k, m = 0, bytes.Index(b, []byte(x))
			}
			files[n] = []byte(string(b[:k+m]) + y + string(b[k+m+len(x):]))
			what = append(what, fmt.Sprintf("%q becomes %q in %s at %d", x, y, n, k+m))
		case 12: // one digit changes
			var digits []int
			for i, x := range b {
				if x >= '0' && x <= '9' {
					digits = append(digits, i)
				}
			}
			if len(digits) == 0 {
				continue
			}
			k := digits[c.N(len(digits))]
			b = append([]byte(nil), b...)
			b[k] = byte('0' + c.N(10))
			files[n] = b
			what = append(what, fmt.Sprintf("another digit at %d of %s", k, n))
		}
	}
	return what
}
