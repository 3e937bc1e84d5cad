package hx

import (
	"math"

	"verifh/nd"

	wwr "github.com/qbeon/webwire-go"
)

// Limit returns an arbitrary concurrency limit
func Limit() int { return nd.Int("limit", math.MinInt64, math.MaxInt64) }

// Room returns how many of n handlers a concurrency limit allows at once
func Room(limit, n int) int {
	return nd.IteInt(limit < 0, n, nd.IteInt(limit < 1, 1, nd.IteInt(limit < n, limit, n)))
}

// AnyID returns an arbitrary request identifier
func AnyID() []byte { return nd.Bytes("id", 8) }

// Options returns connection options with an arbitrary concurrency limit
func Options() wwr.ConnectionOptions { return wwr.ConnectionOptions{ConcurrencyLimit: Limit()} }

// AnyFault returns which operation of a connected socket fails, if any: a
// GetWriter, Write or Close of a writer, each at any point
func AnyFault() (get, write, close int) {
	n := nd.Int("fault", 0, 255)
	switch nd.Choice("operation", 3) {
	case 0:
		return n, 0, 0
	case 1:
		return 0, n, 0
	}
	return 0, 0, n
}
