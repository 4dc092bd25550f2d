package types

// Object is one in a listing.
type Object struct {
	Key  *string
	Size *int64
}

// CommonPrefix groups objects.
type CommonPrefix struct{ Prefix *string }
