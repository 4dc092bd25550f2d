module github.com/Azure/azure-sdk-for-go/sdk/storage/azblob

go 1.21
