// Package fakeexit stands in for os.Exit in the repository's code, so that a command can be run inside the replay program.
package fakeexit

// Code is what Exit panics with.
type Code int

// Exit ends the command.
func Exit(code int) { panic(Code(code)) }
