package rand

func Contract_String() {
	vNoPanic()
	String()
	vEnsure("nothing else changes", vUnchanged())
}
