// Package storage is a stand-in for the client of Google Cloud Storage.
package storage

import (
	"bytes"
	"context"
	"errors"
	"io"

	"google.golang.org/api/iterator"
	"google.golang.org/api/option"
)

// Store holds the objects.
type Store interface {
	Put(bucket, key, ctype string, body io.Reader, partSize int64) error
	Get(bucket, key string) (io.ReadCloser, error)
	Page(bucket, prefix, delimiter string, page int) (keys []string, more bool, err error)
}

// H is the storage.
var H Store

type Client struct{}

func NewClient(ctx context.Context, opts ...option.ClientOption) (*Client, error) {
	return &Client{}, nil
}

func (c *Client) Close() error { return nil }

type BucketHandle struct{ name string }

func (c *Client) Bucket(name string) *BucketHandle { return &BucketHandle{name} }

type ObjectHandle struct{ bucket, key string }

func (b *BucketHandle) Object(key string) *ObjectHandle { return &ObjectHandle{b.name, key} }

func (o *ObjectHandle) Delete(ctx context.Context) error { return errors.New("not implemented") }

// Writer makes an object when it is closed.
type Writer struct {
	ChunkSize   int
	ContentType string
	ctx         context.Context
	o           *ObjectHandle
	buf         bytes.Buffer
	done        bool
	err         error
}

func (o *ObjectHandle) NewWriter(ctx context.Context) *Writer { return &Writer{ctx: ctx, o: o} }

func (w *Writer) Write(b []byte) (int, error) {
	if w.err != nil {
		return 0, w.err
	}
	if w.done {
		return 0, errors.New("closed")
	}
	return w.buf.Write(b)
}

func (w *Writer) CloseWithError(err error) error {
	w.done = true
	return nil
}

func (w *Writer) Close() error {
	if w.done {
		return nil
	}
	w.done = true
	if err := w.ctx.Err(); err != nil {
		return err
	}
	return H.Put(w.o.bucket, w.o.key, w.ContentType, &w.buf, 0)
}

type Reader struct{ io.ReadCloser }

func (o *ObjectHandle) NewReader(ctx context.Context) (*Reader, error) {
	r, err := H.Get(o.bucket, o.key)
	if err != nil {
		return nil, err
	}
	return &Reader{r}, nil
}

type Query struct {
	Prefix, Delimiter string
}

type ObjectAttrs struct {
	Name, Prefix string
	Size         int64
}

type ObjectIterator struct {
	bucket string
	q      Query
	page   int
	buf    []string
	last   bool
	err    error
}

func (b *BucketHandle) Objects(ctx context.Context, q *Query) *ObjectIterator {
	it := &ObjectIterator{bucket: b.name}
	if q != nil {
		it.q = *q
	}
	return it
}

func (it *ObjectIterator) Next() (*ObjectAttrs, error) {
	if it.err != nil {
		return nil, it.err
	}
	for len(it.buf) == 0 {
		if it.last {
			it.err = iterator.Done
			return nil, it.err
		}
		keys, more, err := H.Page(it.bucket, it.q.Prefix, it.q.Delimiter, it.page)
		if err != nil {
			it.err = err
			return nil, err
		}
		it.page++
		it.buf, it.last = keys, !more
	}
	k := it.buf[0]
	it.buf = it.buf[1:]
	return &ObjectAttrs{Name: k}, nil
}
