package fx

import (
	"io"
	"log"
)

var quietLog = log.New(io.Discard, "", 0)
