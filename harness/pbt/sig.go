package pbt

import "syscall"

var quit = syscall.SIGQUIT
