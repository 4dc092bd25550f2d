// Package manager is a stand-in for the uploader of Amazon S3.
package manager

import (
	"context"
	"fmt"
	"io"

	"github.com/aws/aws-sdk-go-v2/service/s3"
)

const (
	MinUploadPartSize     int64 = 5 << 20
	DefaultUploadPartSize       = MinUploadPartSize
	MaxUploadParts        int32 = 10000
)

// Uploader uploads objects in parts.
type Uploader struct {
	PartSize          int64
	Concurrency       int
	LeavePartsOnError bool
	MaxUploadParts    int32
	c                 *s3.Client
}

type UploadOutput struct{ Location string }

func NewUploader(c *s3.Client, opts ...func(*Uploader)) *Uploader {
	u := &Uploader{PartSize: DefaultUploadPartSize, Concurrency: 5, MaxUploadParts: MaxUploadParts, c: c}
	for _, f := range opts {
		f(u)
	}
	return u
}

func (u *Uploader) Upload(ctx context.Context, in *s3.PutObjectInput, opts ...func(*Uploader)) (*UploadOutput, error) {
	c := *u
	for _, f := range opts {
		f(&c)
	}
	if c.PartSize == 0 {
		c.PartSize = DefaultUploadPartSize
	}
	if c.PartSize < MinUploadPartSize {
		return nil, fmt.Errorf("part size must be at least %d bytes", MinUploadPartSize)
	}
	k, b, t := "", "", ""
	if in.Key != nil {
		k = *in.Key
	}
	if in.Bucket != nil {
		b = *in.Bucket
	}
	if in.ContentType != nil {
		t = *in.ContentType
	}
	if err := s3.H.Put(b, k, t, in.Body, c.PartSize); err != nil {
		return nil, err
	}
	return &UploadOutput{}, nil
}

// Downloader is not used.
type Downloader struct{}

var _ io.Reader
