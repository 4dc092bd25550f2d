package mycnf

// ZzBuffer exposes the buffer pool arithmetic to the harness.
func ZzBuffer(total int64) int64 { return calcBufferSize(total) }
