package props

import (
	"errors"
	"fmt"

	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

func metaError(err error) *meta.Error {
	var e *meta.Error
	if errors.As(err, &e) {
		return e
	}
	return nil
}

// errPos is the position of an error, "" for none.
func errPos(err error) string {
	if err == nil {
		return ""
	}
	if e := metaError(err); e != nil {
		return fmt.Sprintf("%+v", e.Pos)
	}
	return "no position"
}
