package blob

// HTTPHeaders of a blob.
type HTTPHeaders struct {
	BlobContentType     *string
	BlobContentEncoding *string
}
