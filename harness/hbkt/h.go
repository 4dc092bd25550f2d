// Package hbkt runs moco's object storage code against stand-ins for the
// clients of the three storage services.
package hbkt

import (
	"context"
	"errors"
	"io"
	"strconv"
	"strings"

	"cloud.google.com/go/storage"
	"github.com/Azure/azure-sdk-for-go/sdk/storage/azblob"
	"github.com/aws/aws-sdk-go-v2/aws"
	"github.com/aws/aws-sdk-go-v2/config"
	"github.com/aws/aws-sdk-go-v2/service/s3"
	"github.com/cybozu-go/moco/pkg/bucket"
	vf "github.com/cybozu-go/moco/zzvf"
	"google.golang.org/api/option"
)

var errFault = errors.New("fault")
var ctx = context.Background()

// LoadDefaultConfig stands in for config.LoadDefaultConfig.
func LoadDefaultConfig(ctx context.Context, f ...func(*config.LoadOptions) error) (aws.Config, error) {
	return aws.Config{}, nil
}

type obj struct{ data, ctype string }

// store is a storage service.
type store struct {
	kind    int // 0: S3, 1: GCS, 2: Azure
	objs    map[string]obj
	keys    []string // in order of the listing
	size    int64    // real size of the object to be put, whatever the data are
	failPut bool
	failGet bool
	failAt  int // page that fails, -1 for none
	perPage int
	parts   int64
}

func (s *store) Put(bkt, key, ctype string, body io.Reader, part int64) error {
	b, err := io.ReadAll(body)
	if err != nil {
		return err
	}
	if s.failPut {
		return errFault
	}
	if s.size > 0 && part > 0 {
		max, maxPart := int64(10000), int64(5<<30)
		if s.kind == 2 {
			max, maxPart = 50000, 4000<<20
		}
		if vf.Or(part > maxPart, part < 0, part*max < s.size) {
			return errFault
		}
	}
	s.objs[bkt+"/"+key] = obj{string(b), ctype}
	return nil
}

func (s *store) Get(bkt, key string) (io.ReadCloser, error) {
	o, ok := s.objs[bkt+"/"+key]
	if !ok || s.failGet {
		return nil, errFault
	}
	return io.NopCloser(strings.NewReader(o.data)), nil
}

// Page returns a page of a listing; there may be empty ones in between.
func (s *store) Page(bkt, prefix, delim string, page int) ([]string, bool, error) {
	vf.Assert(bkt == "bucket", "right-bucket")
	if page == s.failAt {
		return nil, false, errFault
	}
	var m []string
	for _, k := range s.keys {
		if !strings.HasPrefix(k, prefix) {
			continue
		}
		if delim != "" && strings.Contains(k[len(prefix):], delim) {
			continue
		}
		m = append(m, k)
	}
	lo := page * s.perPage
	hi := lo + s.perPage
	if hi >= len(m) {
		if lo > len(m) {
			lo = len(m)
		}
		return m[lo:], false, nil
	}
	return m[lo:hi], true, nil
}

func open(s *store) bucket.Bucket {
	s.objs = map[string]obj{}
	s.failAt = -1
	s3.H, azblob.H, storage.H = s, s, s
	s.kind = vf.Int("service", 0, 2)
	var b bucket.Bucket
	var err error
	switch s.kind {
	case 0:
		b, err = bucket.NewS3Bucket("bucket", bucket.WithRegion("region"), bucket.WithEndpointURL("http://endpoint"), bucket.WithPathStyle())
		vf.Assert(err != nil || s3.Last.Region == "region" && *s3.Last.BaseEndpoint == "http://endpoint" && s3.Last.UsePathStyle, "s3-options")
	case 1:
		b, err = bucket.NewGCSBucket(ctx, "bucket", []option.ClientOption{}...)
	case 2:
		if vf.Bool("connection-string") {
			b, err = bucket.NewAzureBucketFromConnectionString(ctx, "conn", "bucket")
			vf.Assert(azblob.URL == "conn", "azure-options")
		} else {
			b, err = bucket.NewAzureBucket(ctx, "https://account/", "bucket", nil)
			vf.Assert(azblob.URL == "https://account/", "azure-options")
		}
	}
	vf.Assert(err == nil && b != nil, "opened")
	return b
}

// reader gives the data in pieces and then perhaps fails.
type reader struct {
	data  string
	piece int
	fail  bool
}

func (r *reader) Read(b []byte) (int, error) {
	if len(r.data) == 0 {
		if r.fail {
			return 0, errFault
		}
		return 0, io.EOF
	}
	n := r.piece
	if n > len(r.data) {
		n = len(r.data)
	}
	n = copy(b, r.data[:n])
	r.data = r.data[n:]
	return n, nil
}

// Objects: an object is stored whole or not at all, whatever its size.
func Objects() {
	s := &store{}
	b := open(s)
	names := []string{"a/b/dump.tar", "a/b/binlog.tar.zst", "x"}
	key := names[vf.Int("key", 0, 2)]
	old := vf.Bool("exists")
	if old {
		s.objs["bucket/"+key] = obj{data: "old"}
	}
	s.failPut = vf.Bool("fail-put")
	r := &reader{data: "0123456789", piece: vf.Int("piece", 1, 3), fail: vf.Bool("fail-read")}
	// the size is a guess: it may be too low by up to a tenth, or zero
	size := vf.Int64("size", 0, 5<<40)
	s.size = size
	guess := size
	switch vf.Int("guess", 0, 2) {
	case 1:
		guess = size - size/16
	case 2:
		vf.Assume(size < 4<<30)
		guess = 0
	}
	fail := r.fail || s.failPut
	err := b.Put(ctx, key, r, guess)
	vf.Assert((err == nil) == !fail, "put-succeeds-unless-failed")
	o, ok := s.objs["bucket/"+key]
	if fail {
		vf.Reach("failed")
		vf.Assert(ok == old && (!ok || o.data == "old"), "whole-or-not-at-all")
		return
	}
	vf.Assert(ok && o.data == "0123456789", "stored")
	s.failGet = vf.Bool("fail-get")
	rc, err := b.Get(ctx, key)
	vf.Assert((err != nil) == s.failGet, "get")
	if err == nil {
		d, err := io.ReadAll(rc)
		vf.Assert(err == nil && string(d) == "0123456789" && rc.Close() == nil, "read-back")
	}
	_, err = b.Get(ctx, "other")
	vf.Assert(err != nil, "missing-object")
	vf.Reach("end")
}

// List: listings are complete.
func List() {
	s := &store{}
	b := open(s)
	n := vf.Int("keys", 0, vf.Param("n", 5))
	want := 0
	prefix := []string{"", "p/", "p/q/"}[vf.Int("prefix", 0, 2)]
	var exp []string
	for i := 0; i < n; i++ {
		k := []string{"p/", "p/q/", "pp/"}[i%3] + "k" + strconv.Itoa(i) + "/f"
		s.keys = append(s.keys, k)
		if strings.HasPrefix(k, prefix) {
			want++
			exp = append(exp, k)
		}
	}
	s.perPage = vf.Int("per-page", 1, 3)
	pages := (want + s.perPage - 1) / s.perPage
	if pages == 0 {
		pages = 1
	}
	s.failAt = vf.Int("fail-page", -1, 5)
	fails := s.failAt >= 0 && s.failAt < pages
	got, err := b.List(ctx, prefix)
	if fails {
		vf.Reach("failed")
		vf.Assert(err != nil, "failure-reported")
		return
	}
	vf.Assert(err == nil, "listed")
	vf.Assert(strings.Join(got, " ") == strings.Join(exp, " "), "complete")
	vf.Reach("end")
}
