package main

import "github.com/syndtr/goleveldb/leveldb/opt"

// resetGlobals restores the process-wide settings that executions change.
func resetGlobals() {
	opt.DefaultWriteBuffer = 4 * opt.MiB
	opt.DefaultCompactionTableSize = 2 * opt.MiB
	opt.DefaultCompactionTotalSize = 10 * opt.MiB
	opt.DefaultBlockSize = 4 * opt.KiB
}
