package files

import (
	"context"

	zz "github.com/vivint/rothko/internal/zzverif"
)

var zzCtx = context.Background()

func zzMust(err error, label string) {
	if err != nil {
		zz.Fail(label)
	}
}
