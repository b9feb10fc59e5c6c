package zzmodel

type ferr struct {
	msg   string
	inner error
}

func (e *ferr) Error() string { return e.msg }
func (e *ferr) Unwrap() error { return e.inner }

//zz:for fmt.Errorf
func fmtErrorf(format string, args ...interface{}) error {
	e := &ferr{msg: format}
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' && format[i+1] == 'w' {
			for _, a := range args {
				if x, ok := a.(error); ok {
					e.inner = x
				}
			}
		}
	}
	return e
}
