module cloud.google.com/go/storage

go 1.21
