package fx

import (
	"time"

	"github.com/fairdatasociety/fairOS-dfs/pkg/feed/lookup"
)

// The feed lookup of fairOS-dfs launches further lookups when one takes longer
// than half a second, and more from each of these: on a machine that is busy the
// goroutines multiply until memory runs out. The store here is in memory and
// always answers, so a lookup waits for it.
func init() {
	// never; a timer of an hour would be kept for an hour
	lookup.TimeAfter = func(time.Duration) <-chan time.Time { return nil }
}
