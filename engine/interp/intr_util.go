package interp

// Zero-copy conversions of github.com/zhiqiangxu/util, modelled as copies: code
// that changes the bytes behind such a string afterwards is outside the model.
func init() {
	const u = "github.com/zhiqiangxu/util."
	intrinsics[u+"String"] = func(fr *frame, args []value) value {
		return mkStr(args[0].([]value))
	}
	intrinsics[u+"Slice"] = func(fr *frame, args []value) value {
		b := strBytes(args[0])
		if len(b) == 0 {
			return []value(nil)
		}
		o := make([]value, len(b))
		copy(o, b)
		return o
	}
	id := func(fr *frame, args []value) value { return args[0] }
	intrinsics["internal/stringslite.Clone"] = id
	intrinsics["strings.Clone"] = id
}
