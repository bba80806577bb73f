// Package dynamodbattribute reads attribute values.
package dynamodbattribute

import (
	"fmt"
	"strconv"

	"github.com/aws/aws-sdk-go/service/dynamodb"
)

// Unmarshal stores a value in what out points at. As in the SDK an absent
// value leaves it alone and a NULL makes it zero.
func Unmarshal(av *dynamodb.AttributeValue, out interface{}) error {
	if av == nil {
		return nil
	}
	switch o := out.(type) {
	case *string:
		switch {
		case av.S != nil:
			*o = *av.S
		case av.NULL != nil:
			*o = ""
		case av.N != nil:
			return fmt.Errorf("UnmarshalTypeError: cannot unmarshal number into Go value of type string")
		}
	case *int64:
		switch {
		case av.N != nil:
			n, err := strconv.ParseInt(*av.N, 10, 64)
			if err != nil {
				return fmt.Errorf("UnmarshalTypeError: cannot unmarshal number into Go value of type int64")
			}
			*o = n
		case av.NULL != nil:
			*o = 0
		case av.S != nil:
			return fmt.Errorf("UnmarshalTypeError: cannot unmarshal string into Go value of type int64")
		}
	case *bool:
		switch {
		case av.BOOL != nil:
			*o = *av.BOOL
		case av.NULL != nil:
			*o = false
		default:
			return fmt.Errorf("UnmarshalTypeError: cannot unmarshal into Go value of type bool")
		}
	default:
		panic("aws model: unsupported: Unmarshal into this type")
	}
	return nil
}
