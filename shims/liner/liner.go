// Package liner is a stand-in for github.com/peterh/liner.
package liner

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"os"
)

// ErrPromptAborted by Ctrl+C
var ErrPromptAborted = errors.New("prompt aborted")

// State of the liner
type State struct{ r *bufio.Reader }

// NewLiner on stdin
func NewLiner() *State { return &State{bufio.NewReader(os.Stdin)} }

// Close the State
func (*State) Close() error { return nil }

// SetCtrlCAborts does nothing
func (*State) SetCtrlCAborts(bool) {}

// SetMultiLineMode does nothing
func (*State) SetMultiLineMode(bool) {}

// SetTabCompletionStyle does nothing
func (*State) SetTabCompletionStyle(int) {}

// TabPrints style
const TabPrints = 1

// SetCompleter does nothing
func (*State) SetCompleter(func(string) []string) {}

// ReadHistory does nothing
func (*State) ReadHistory(io.Reader) (int, error) { return 0, nil }

// WriteHistory does nothing
func (*State) WriteHistory(io.Writer) (int, error) { return 0, nil }

// AppendHistory does nothing
func (*State) AppendHistory(string) {}

// Prompt reads a line
func (s *State) Prompt(p string) (l string, err error) {
	fmt.Print(p)
	if l, err = s.r.ReadString('\n'); len(l) > 0 && l[len(l)-1] == '\n' {
		l = l[:len(l)-1]
	}
	return
}
