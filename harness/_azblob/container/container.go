package container

type BlobItem struct{ Name *string }

type BlobFlatListSegment struct{ BlobItems []*BlobItem }

type ListBlobsFlatOptions struct {
	Prefix     *string
	Marker     *string
	MaxResults *int32
}
