package props

import (
	"time"

	"pgregory.net/rapid"
)

func genTime(t *rapid.T) time.Time {
	s := rapid.Int64Range(-2e9, 4e9).Draw(t, "unix")
	return time.Unix(s, rapid.Int64Range(0, 999999999).Draw(t, "nano")).UTC()
}
