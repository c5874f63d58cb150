package playermain

func VerifMain() { main() }
