package vsched

import "reflect"

// nativeSelect runs a select outside any exploration.
func nativeSelect(def bool, cases []Case) int {
	var rc []reflect.SelectCase
	for _, c := range cases {
		rc = append(rc, c.(interface{ reflectCase() reflect.SelectCase }).reflectCase())
	}
	if def {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if def && i == len(cases) {
		return -1
	}
	if s, is := cases[i].(interface{ setRecv(reflect.Value, bool) }); is {
		s.setRecv(v, ok)
	}
	return i
}

func (c *RecvCase[T]) reflectCase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.Ch)}
}

func (c *RecvCase[T]) setRecv(v reflect.Value, ok bool) {
	c.OK = ok
	if ok {
		c.V, _ = v.Interface().(T)
	}
}

func (c *SendCase[T]) reflectCase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.Ch), Send: reflect.ValueOf(c.V)}
}
