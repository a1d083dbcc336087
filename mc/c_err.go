package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"os"
	"strings"
	"syscall"

	"vimagination.zapto.org/ics"
)

// ---------------------------------------------------------------------------
// Errors of every description that readers and writers return. None of them
// asks for another attempt.

type passingError struct{ what string }

func (e *passingError) Error() string   { return e.what }
func (e *passingError) Timeout() bool   { return true }
func (e *passingError) Temporary() bool { return true }

type anyError struct{}

func (anyError) Error() string        { return "" }
func (anyError) Is(error) bool        { return true }
func (anyError) Unwrap() error        { return io.EOF }
func (e anyError) As(target any) bool { return false }

var errorKinds = []error{
	errors.New("failed"), io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrShortBuffer, io.ErrNoProgress, io.ErrClosedPipe,
	syscall.EAGAIN, syscall.EINTR, syscall.EPIPE, syscall.ENOSPC, syscall.ECONNRESET, syscall.EIO, syscall.EBADF, syscall.Errno(0),
	&os.PathError{Op: "write", Path: "x", Err: syscall.EINTR}, &os.SyscallError{Syscall: "write", Err: syscall.EAGAIN}, os.ErrClosed, os.ErrDeadlineExceeded, fs.ErrInvalid,
	&net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}, net.ErrClosed, &net.DNSError{IsTemporary: true, IsTimeout: true},
	context.Canceled, context.DeadlineExceeded, bufio.ErrBufferFull, bufio.ErrFinalToken,
	fmt.Errorf("wrapped: %w", io.EOF), errors.Join(io.EOF, io.ErrShortWrite), &passingError{"later"}, anyError{},
	ics.ErrInvalidCalendar, ics.ErrInvalidText, errors.ErrUnsupported,
}

// writeErrors: every kind of error at every call of the writer.
func writeErrors(c *Ctx) {
	cal := faultCals[c.Choose(len(focuses)+1)]()
	e := errorKinds[c.Choose(len(errorKinds))]
	base := &faultWriter{at: 1 << 30}
	err, p := c.encodeTo(base, cal)
	if p {
		return
	}
	if err != nil {
		c.Fail("valid calendar refused", "%s: %v", dump(cal), err)
		return
	}
	full := base.got.String()
	for at, size := range base.sizes {
		for i, n := range []int{0, 1, size - 1, size} {
			if n < 0 || n > size || i > 0 && n == 0 || i > 1 && n == 1 {
				continue
			}
			w := &faultWriter{at: at, n: n, err: e}
			err, p := c.encodeTo(w, cal)
			if p {
				return
			}
			switch {
			case err != e:
				c.Fail("writer's error not returned", "call %d, %d of %d bytes taken: returned %v, want %T %v\n%s", at, n, size, err, e, e, dump(cal))
			case w.after > 0:
				c.Fail("written to after failing", "call %d, %d of %d bytes taken, %T %v: %d more calls\n%s", at, n, size, e, e, w.after, dump(cal))
			case !strings.HasPrefix(full, w.got.String()):
				c.Fail("accepted bytes are not a prefix", "call %d: %q\nof %q", at, w.got.String(), full)
			}
			if c.fail != nil {
				return
			}
		}
	}
	c.Outcome(full, fmt.Sprintf("%T", e))
	c.Note("%T: %d calls", e, len(base.sizes))
}

// readErrors: every kind of error at every offset, once or for good, alone or
// with data.
func readErrors(c *Ctx) {
	ti := c.Choose(len(cutTexts) - 1)
	text, end := cutTexts[ti], cutEnds[ti]
	e := errorKinds[c.Choose(len(errorKinds))]
	if e == io.EOF {
		c.Skip()
	}
	once := c.Bool()
	with := c.Bool()
	chunk := []int{1 << 30, 5}[c.Choose(2)]
	for k := 0; k < end; k++ {
		res, ok := c.result(&schedReader{data: []byte(text), next: func(int) int { return chunk }, fail: k, err: e, with: with && k > 0, once: once})
		if !ok {
			return
		}
		if res.err == nil {
			c.Fail("calendar from incomplete data", "reader fails with %T %v at %d of %d, once: %v, with data: %v\ntext: %q\n%s", e, e, k, end, once, with, clip(text[:k], 2000), res.dump)
			return
		}
	}
	c.Outcome(text, fmt.Sprintf("%T", e))
	c.Note("%T at each of %d offsets", e, end)
}
