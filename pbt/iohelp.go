package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"sync/atomic"
	"syscall"
)

var errInjected = errors.New("injected failure")

// injectedErrors are the ways a read or a write may fail: also with the errors
// that mean something elsewhere, but not here. bufio.ErrBufferFull is left out:
// bufio.Reader.ReadBytes of the standard library takes it, when a reader returns
// it, for its own full buffer and goes on reading forever.
var injectedErrors = []error{
	errInjected,
	io.ErrUnexpectedEOF,
	os.ErrNotExist,
	io.ErrClosedPipe,
	os.ErrClosed,
	io.ErrNoProgress,
	io.ErrShortBuffer,
	io.ErrShortWrite,
	&os.PathError{Op: "read", Path: "x", Err: syscall.ENOENT},
	&os.PathError{Op: "read", Path: "x", Err: syscall.EINTR},
	&os.PathError{Op: "open", Path: "x", Err: io.EOF},
	fmt.Errorf("end: %w", io.EOF),
	bufio.ErrNegativeCount,
	timeoutError{},
}

type timeoutError struct{}

func (timeoutError) Error() string   { return "timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

// source delivers data in given chunks and may fail once or for good at an
// offset. It counts what is done to it.
type source struct {
	data     string
	chunks   []int // sizes of the reads, repeated; 0 delivers nothing once
	eofLast  bool  // the last data comes together with io.EOF
	failAt   int   // offset of the failure, or -1
	failOnce bool  // only one read fails
	err      error // the failure
	withData bool  // the failure comes together with data

	off, turn int
	failed    bool
	reads     int
	closes    int
	late      bool // read after close
}

func newSource(data string) *source { return &source{data: data, failAt: -1, err: errInjected} }

func (s *source) Read(p []byte) (int, error) {
	s.reads++
	if s.closes > 0 {
		s.late = true
	}
	limit := len(s.data)
	failing := s.failAt >= 0 && !(s.failOnce && s.failed)
	if failing && s.failAt < limit {
		limit = s.failAt
	}
	if s.off >= limit {
		if failing {
			s.failed = true
			return 0, s.err
		}
		return 0, io.EOF
	}
	n := len(p)
	if len(s.chunks) > 0 {
		c := s.chunks[s.turn%len(s.chunks)]
		s.turn++
		if c < n {
			n = c
		}
	}
	if n > limit-s.off {
		n = limit - s.off
	}
	copy(p, s.data[s.off:s.off+n])
	s.off += n
	if s.off >= limit {
		if failing && s.withData {
			s.failed = true
			return n, s.err
		}
		if !failing && s.eofLast && s.off == len(s.data) {
			return n, io.EOF
		}
	}
	return n, nil
}

// closer is a source with Close.
type closer struct{ *source }

func (c closer) Close() error {
	c.closes++
	return nil
}

var scratchN atomic.Int64

var scratchRoot string

// scratchDir is a directory of this process below TMPDIR.
func scratchDir() string {
	if scratchRoot == "" {
		d, err := os.MkdirTemp("", "pbtscratch-")
		if err != nil {
			fatal("%v", err)
		}
		scratchRoot = d
	}
	return scratchRoot
}

func cleanScratch() {
	if scratchRoot != "" {
		_ = os.RemoveAll(scratchRoot)
		scratchRoot = ""
	}
}

func scratchFile(content string) string {
	p := filepath.Join(scratchDir(), "f"+strconv.FormatInt(scratchN.Add(1)%16, 10)+".ini")
	if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
		fatal("%v", err)
	}
	return p
}

// stillOpen is an open descriptor of this process for the file or directory.
func stillOpen(path string) error {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	for _, e := range l {
		if to, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && to == path {
			return fmt.Errorf("%s is still open", path)
		}
	}
	return nil
}

// link is a symbolic link to the path.
func link(to string) string {
	p := filepath.Join(scratchDir(), "l"+strconv.FormatInt(scratchN.Add(1)%16, 10)+".ini")
	_ = os.Remove(p)
	if err := os.Symlink(to, p); err != nil {
		fatal("%v", err)
	}
	return p
}

func missingFile() string { return filepath.Join(scratchDir(), "does-not-exist.ini") }

var unique []string

// uniqueFile is the name of a new file, until removeUnique.
func uniqueFile() string {
	p := filepath.Join(scratchDir(), "u"+strconv.FormatInt(scratchN.Add(1), 10)+".ini")
	unique = append(unique, p)
	return p
}

func writeFile(path, content string) {
	if err := os.WriteFile(path, []byte(content), 0o644); err != nil {
		fatal("%v", err)
	}
}

func removeUnique() {
	for _, p := range unique {
		_ = os.Remove(p)
	}
	unique = unique[:0]
}
