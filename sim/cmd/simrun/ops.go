package main

import "verif.local/sim/simrt"

func (c *opCtx) exec() {
	switch c.op.Kind {
	case "unm":
		c.execUnm()
	case "valid":
		c.execValid()
	case "dstream":
		c.execDstream()
	case "iter":
		c.execIter()
	case "marshal":
		c.execMarshal()
	case "estream":
		c.execEstream()
	case "streamer":
		c.execStreamer()
	case "psend":
		c.execPsend()
	case "precv":
		c.execPrecv()
	case "ping":
		c.execPing()
	case "pong":
		c.execPong()
	case "mem":
		c.execMem()
	case "nest":
		c.execNest()
	case "far":
		c.execFar()
	default:
		panic("harness: operation " + c.op.Kind)
	}
	if c.cbFailed && c.or().Model && (c.op.Kind == "unm" || c.op.Kind == "iter") {
		if n := len(c.log); n > 0 && c.ts.viol == nil {
			last := c.log[n-1]
			if len(last) > 7 && (last[:7] == "unm ok " || last == "walk ok") {
				c.fail("error-swallowed", "the error of a callback was not reported")
			}
		}
	}
}

// the number of bytes an operation handles
func (o *op) size() int {
	n := len(o.Doc) + len(o.exp.data)
	for _, e := range o.exp.encs {
		n += len(e)
	}
	return n
}

const (
	stepsBase    = 60000
	stepsPerByte = 300
)

// checkProgress bounds the steps of an operation by its size.
func (c *opCtx) checkProgress() {
	if c.ts.run.solo || len(c.ts.run.tasks) > 1 || c.op.Kind == "mem" || c.op.Kind == "far" || c.op.Kind == "nest" {
		return
	}
	used := simrt.Step() - c.s0
	reads := 0
	if c.rd != nil {
		reads = c.rd.calls
		c.checkReads()
	}
	max := uint64(stepsBase + stepsPerByte*(c.op.size()+reads))
	if used > maxRatio {
		maxRatio = used
	}
	if used > max {
		c.fail("no-progress", "%d steps for %d bytes and %d reads, more than %d", used, c.op.size(), reads, max)
	}
}

var maxRatio uint64

const (
	allocMin     = 2000
	allocBase    = 1 << 20
	allocPerByte = 400
	allocPerRead = 8192 // a scratch buffer may be needed for each
)

// checkAlloc bounds the memory an operation allocates by its size: copying
// everything at every refill is work no step counter sees.
func (c *opCtx) checkAlloc(used uint64) {
	count(stAllocChecks)
	reads := 0
	if c.rd != nil {
		reads = c.rd.calls
	}
	if max := uint64(allocBase + allocPerByte*c.op.size() + allocPerRead*reads); used > max {
		c.fail("no-progress", "more than %d bytes were allocated for %d bytes and %d reads", max, c.op.size(), reads)
	}
}
