module github.com/aws/aws-sdk-go-v2/service/s3

go 1.21
