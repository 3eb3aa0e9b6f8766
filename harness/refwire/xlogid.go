package refwire

import "strconv"

// XlogID is the textual form of a transaction's id.
func XlogID(n int64) string {
	switch {
	case n >= 0 && n < 10:
		return strconv.FormatInt(n, 10)
	case n < 0 && n > -9223372036854775808:
		return "z" + strconv.FormatInt(-n, 32)
	case n < 0:
		return "z8000000000000"
	}
	return "x" + strconv.FormatInt(n, 32)
}
