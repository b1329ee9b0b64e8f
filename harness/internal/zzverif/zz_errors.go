package zzverif

// errors.Is and errors.As, which use reflection

func Model_errors_Is(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if Model_errors_Is(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return target == nil
}

func Model_errors_As(err error, target interface{}) bool {
	for err != nil {
		if zzAssign(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if Model_errors_As(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// stores the error in what target points to, if it is of that type; done by the engine
func zzAssign(err error, target interface{}) bool { return false }
