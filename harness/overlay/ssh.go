package ssh

import (
	"github.com/gliderlabs/ssh"
)

// Only names that the package's own tests use appear here.

// VerifComplete runs the tab completion.
func VerifComplete(line []rune, pos int) ([][]rune, int) {
	ac := sshAutoCompleter{}
	return ac.Do(line, pos)
}

// VerifResetCommands removes all commands but the built-in ones and returns a function that puts them back.
func VerifResetCommands() func() {
	old := make([]Command, len(commands))
	copy(old, commands)
	return func() { commands = old }
}

// VerifCommands lists the registered commands.
func VerifCommands() []Command { return append([]Command{}, commands...) }

// VerifOptions builds the server options for a set of users.
func VerifOptions(users map[string]UserAuth) []ssh.Option { return getSSHOptions(users) }
