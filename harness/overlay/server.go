package servermain

func VerifMain() { main() }
