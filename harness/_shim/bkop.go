package bkop

// ZzFile fills the answer to SHOW BINARY LOG STATUS.
func ZzFile(dest any, f string) {
	d := dest.(*showBinaryLogStatus)
	d.File = f
}

// ZzLogs fills the answer to SHOW BINARY LOGS.
func ZzLogs(dest any, names []string) {
	d := dest.(*[]showBinaryLogs)
	for _, n := range names {
		*d = append(*d, showBinaryLogs{LogName: n})
	}
}
