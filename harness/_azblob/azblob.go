// Package azblob is a stand-in for the client of Azure Blob Storage.
package azblob

import (
	"context"
	"io"

	"github.com/Azure/azure-sdk-for-go/sdk/azcore"
	"github.com/Azure/azure-sdk-for-go/sdk/storage/azblob/blob"
	"github.com/Azure/azure-sdk-for-go/sdk/storage/azblob/container"
)

// Store holds the objects.
type Store interface {
	Put(bucket, key, ctype string, body io.Reader, blockSize int64) error
	Get(bucket, key string) (io.ReadCloser, error)
	Page(bucket, prefix, delimiter string, page int) (keys []string, more bool, err error)
}

// H is the storage.
var H Store

// URL is what the last client was made for.
var URL string

type ClientOptions struct{ azcore.ClientOptions }

type Client struct{}

func NewClient(url string, cred azcore.TokenCredential, o *ClientOptions) (*Client, error) {
	URL = url
	return &Client{}, nil
}

func NewClientFromConnectionString(s string, o *ClientOptions) (*Client, error) {
	URL = s
	return &Client{}, nil
}

type UploadStreamOptions struct {
	BlockSize   int64
	Concurrency int
	Metadata    map[string]*string
	HTTPHeaders *blob.HTTPHeaders
}

type UploadStreamResponse struct{}

func (c *Client) UploadStream(ctx context.Context, bucket, key string, body io.Reader, o *UploadStreamOptions) (UploadStreamResponse, error) {
	bs, t := int64(0), ""
	if o != nil {
		bs = o.BlockSize
		if o.HTTPHeaders != nil && o.HTTPHeaders.BlobContentType != nil {
			t = *o.HTTPHeaders.BlobContentType
		}
	}
	if bs < 1<<20 {
		bs = 1 << 20 // the minimum is the default
	}
	return UploadStreamResponse{}, H.Put(bucket, key, t, body, bs)
}

type DownloadStreamOptions struct{}

type DownloadStreamResponse struct{ Body io.ReadCloser }

func (c *Client) DownloadStream(ctx context.Context, bucket, key string, o *DownloadStreamOptions) (DownloadStreamResponse, error) {
	b, err := H.Get(bucket, key)
	return DownloadStreamResponse{Body: b}, err
}

type ListBlobsFlatOptions = container.ListBlobsFlatOptions

type ListBlobsFlatResponse struct {
	Segment *container.BlobFlatListSegment
}

// Pager goes through pages.
type Pager struct {
	bucket, prefix string
	page           int
	more           bool
}

func (c *Client) NewListBlobsFlatPager(bucket string, o *ListBlobsFlatOptions) *Pager {
	p := &Pager{bucket: bucket, more: true}
	if o != nil && o.Prefix != nil {
		p.prefix = *o.Prefix
	}
	return p
}

func (p *Pager) More() bool { return p.more }

func (p *Pager) NextPage(ctx context.Context) (ListBlobsFlatResponse, error) {
	keys, more, err := H.Page(p.bucket, p.prefix, "", p.page)
	if err != nil {
		return ListBlobsFlatResponse{}, err
	}
	p.page++
	p.more = more
	s := &container.BlobFlatListSegment{}
	for _, k := range keys {
		k := k
		s.BlobItems = append(s.BlobItems, &container.BlobItem{Name: &k})
	}
	return ListBlobsFlatResponse{Segment: s}, nil
}
