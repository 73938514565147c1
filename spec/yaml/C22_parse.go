package yaml

// C22: reading a configuration never crashes.

func P_C22_parse(data []byte) {
	vNoPanic()
	ParseBytes(data)
	vEnsure("reading ends", true)
}
