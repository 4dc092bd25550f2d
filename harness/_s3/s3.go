// Package s3 is a stand-in for the client of Amazon S3.
package s3

import (
	"context"
	"io"
	"net/http"

	"github.com/aws/aws-sdk-go-v2/aws"
	"github.com/aws/aws-sdk-go-v2/service/s3/types"
)

// Store holds the objects.
type Store interface {
	Put(bucket, key, ctype string, body io.Reader, partSize int64) error
	Get(bucket, key string) (io.ReadCloser, error)
	Page(bucket, prefix, delimiter string, page int) (keys []string, more bool, err error)
}

// H is the storage.
var H Store

// HTTPClient sends requests.
type HTTPClient interface {
	Do(*http.Request) (*http.Response, error)
}

// Options of a client.
type Options struct {
	Credentials  aws.CredentialsProvider
	Region       string
	BaseEndpoint *string
	UsePathStyle bool
	HTTPClient   HTTPClient
}

// Last are the options of the last client made.
var Last Options

// Client of S3.
type Client struct{}

// NewFromConfig makes a client.
func NewFromConfig(cfg aws.Config, optFns ...func(*Options)) *Client {
	o := Options{}
	for _, f := range optFns {
		f(&o)
	}
	Last = o
	return &Client{}
}

type PutObjectInput struct {
	Bucket, Key, ContentType *string
	Body                     io.Reader
	ContentLength            *int64
}

type PutObjectOutput struct{}

type GetObjectInput struct{ Bucket, Key, Range *string }

type GetObjectOutput struct {
	Body          io.ReadCloser
	ContentLength *int64
}

func str(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}

func (c *Client) PutObject(ctx context.Context, in *PutObjectInput, optFns ...func(*Options)) (*PutObjectOutput, error) {
	if err := H.Put(str(in.Bucket), str(in.Key), str(in.ContentType), in.Body, 5<<30); err != nil {
		return nil, err
	}
	return &PutObjectOutput{}, nil
}

func (c *Client) GetObject(ctx context.Context, in *GetObjectInput, optFns ...func(*Options)) (*GetObjectOutput, error) {
	b, err := H.Get(str(in.Bucket), str(in.Key))
	if err != nil {
		return nil, err
	}
	return &GetObjectOutput{Body: b}, nil
}

type ListObjectsV2Input struct {
	Bucket, Prefix, Delimiter, ContinuationToken, StartAfter *string
	MaxKeys                                                  *int32
}

type ListObjectsV2Output struct {
	Contents              []types.Object
	CommonPrefixes        []types.CommonPrefix
	IsTruncated           *bool
	NextContinuationToken *string
	KeyCount              *int32
}

func (c *Client) ListObjectsV2(ctx context.Context, in *ListObjectsV2Input, optFns ...func(*Options)) (*ListObjectsV2Output, error) {
	page := len(str(in.ContinuationToken))
	keys, more, err := H.Page(str(in.Bucket), str(in.Prefix), str(in.Delimiter), page)
	if err != nil {
		return nil, err
	}
	o := &ListObjectsV2Output{IsTruncated: &more}
	for _, k := range keys {
		o.Contents = append(o.Contents, types.Object{Key: aws.String(k)})
	}
	if more {
		t := str(in.ContinuationToken) + "x"
		o.NextContinuationToken = &t
	}
	n := int32(len(keys))
	o.KeyCount = &n
	return o, nil
}

type ListObjectsV2APIClient interface {
	ListObjectsV2(context.Context, *ListObjectsV2Input, ...func(*Options)) (*ListObjectsV2Output, error)
}

type ListObjectsV2PaginatorOptions struct {
	Limit                int32
	StopOnDuplicateToken bool
}

type ListObjectsV2Paginator struct {
	c     ListObjectsV2APIClient
	in    ListObjectsV2Input
	token *string
	first bool
}

func NewListObjectsV2Paginator(c ListObjectsV2APIClient, in *ListObjectsV2Input, optFns ...func(*ListObjectsV2PaginatorOptions)) *ListObjectsV2Paginator {
	p := &ListObjectsV2Paginator{c: c, first: true}
	if in != nil {
		p.in = *in
	}
	return p
}

func (p *ListObjectsV2Paginator) HasMorePages() bool {
	return p.first || (p.token != nil && len(*p.token) != 0)
}

func (p *ListObjectsV2Paginator) NextPage(ctx context.Context, optFns ...func(*Options)) (*ListObjectsV2Output, error) {
	in := p.in
	in.ContinuationToken = p.token
	o, err := p.c.ListObjectsV2(ctx, &in)
	if err != nil {
		return nil, err
	}
	p.first = false
	p.token = nil
	if o.IsTruncated != nil && *o.IsTruncated {
		p.token = o.NextContinuationToken
	}
	return o, nil
}
