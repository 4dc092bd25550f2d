module github.com/aws/aws-sdk-go-v2/feature/s3/manager

go 1.21
