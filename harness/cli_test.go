package harness

import (
	"bytes"
	"context"
	"errors"
	"io"
	"os"
	"os/exec"
	"time"
)

type cliResult struct {
	code   int
	out    string // standard output
	errOut string
}

// runOfx runs the command line program in an empty directory, with only the
// harness' certificate trusted.
func runOfx(t fataler, args []string, stdin io.Reader, opts ...func(*exec.Cmd)) cliResult {
	netSetup()
	bin := os.Getenv("VERIF_OFX")
	if bin == "" {
		broken("VERIF_OFX is not set")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr, cmd.Stdin = &out, &errOut, stdin
	cmd.Env = []string{"SSL_CERT_FILE=" + certFile, "SSL_CERT_DIR=" + emptyDir, "HOME=" + emptyDir, "PATH=/nonexistent"}
	for _, o := range opts {
		o(cmd)
	}
	err := cmd.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		broken("running ofx: %v", err)
	}
	if ctx.Err() != nil {
		t.Fatalf("ofx %q did not end within two minutes\n%s%s", args, out.String(), errOut.String())
	}
	return cliResult{cmd.ProcessState.ExitCode(), out.String(), errOut.String()}
}
