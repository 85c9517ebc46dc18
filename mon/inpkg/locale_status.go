package locale

// VerifStatus is the verdict of the parser alone. It is laid over pkg/locale
// only when the committed hook (verif_hook.go) does not compile.
func VerifStatus(source string) int { return yyParse(NewLexer(source)) }
