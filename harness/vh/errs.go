package vh

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"os"
	"syscall"

	"github.com/Aize-Public/forego/utils"
)

// Errs are errors with a meaning somewhere, which code might be tempted to treat unlike others
var Errs = []error{
	errors.New("plain"), io.EOF, context.Canceled, context.DeadlineExceeded, utils.EOD{}, io.ErrUnexpectedEOF, io.ErrClosedPipe,
	net.ErrClosed, fs.ErrNotExist, os.ErrDeadlineExceeded, http.ErrServerClosed, http.ErrBodyNotAllowed, syscall.EPIPE, syscall.ECONNRESET,
	fmt.Errorf("wrapped: %w", io.EOF), fmt.Errorf("wrapped: %w", context.Canceled), fmt.Errorf("wrapped: %w", context.DeadlineExceeded),
}
