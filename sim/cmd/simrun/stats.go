package main

// Counters of what actually happened (faults fired, probes hit).
type stat int

const (
	stCallbacks stat = iota
	stCbErr
	stCbPanic
	stNested
	stGC
	stGrow
	stReads
	stReadZero
	stReadShort
	stReadEOFData
	stReadErr
	stReadErrData
	stReadEOFTrunc
	stReadPanic
	stReadTransient
	stScribble
	stWrites
	stWriteShort
	stWriteErr
	stWriteFullErr
	stWritePanic
	stFlushRetry
	stPipeBreak
	stPipeBlockR
	stPipeBlockW
	stAbandon
	stReuseSlot
	stStickyChecked
	stRetryOK
	stConserve
	stDecodeOps
	stEncodeOps
	stIterNodes
	stMemRuns
	stValueFail
	stFresh
	stAllocChecks
	stFar
	stSpare
	stNest
	stMisfit
	stNum
)

var statNames = [stNum]string{"user_callbacks", "callback_error", "callback_panic", "nested_library_call", "forced_gc", "stack_growth",
	"reads", "read_zero_bytes", "read_short", "read_data_with_eof", "read_error", "read_error_with_data", "read_truncated_eof", "read_panic", "read_transient_error", "read_scribbled_scratch",
	"writes", "write_short", "write_error", "write_error_full_count", "write_panic", "flush_retried",
	"pipe_broken", "pipe_reader_blocked", "pipe_writer_blocked", "object_abandoned", "object_reset_reused", "probe_sticky_error_checked", "probe_retry_after_transient_ok", "probe_position_checked",
	"decode_ops", "encode_ops", "iterator_nodes", "memory_runs", "value_encode_failures", "fresh_process_histories", "allocation_checks", "streams_beyond_32_bits", "results_appended_to", "deep_documents", "retries_after_misfit"}

var stats [stNum]uint64

//go:norace
//go:noinline
func count(s stat) {
	if !preparing {
		stats[s]++
	}
}

// faultStat marks the counters of injected events.
var faultStat = [stNum]bool{stCbErr: true, stCbPanic: true, stNested: true, stGC: true, stGrow: true, stReadZero: true, stReadShort: true,
	stReadEOFData: true, stReadErr: true, stReadErrData: true, stReadEOFTrunc: true, stReadPanic: true, stReadTransient: true, stScribble: true,
	stWriteShort: true, stWriteErr: true, stWriteFullErr: true, stWritePanic: true, stPipeBreak: true, stPipeBlockR: true, stPipeBlockW: true,
	stAbandon: true, stReuseSlot: true, stMemRuns: true, stValueFail: true}
